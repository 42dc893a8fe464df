------------------------------ MODULE MC_Decode ------------------------------
(* C16: every short list of tokens through every decoder. *)
EXTENDS MCBase
VARIABLES inputTokens
allvars == <<tks, last, inputTokens>>
\* ##a  a  ' 's  " ."  " "  empty  <0xE2> <0x82> <0xAC> <0x41> <0xe2  G-space+a  e-acute
Bank == <<<<35, 35, 97>>, <<97>>, <<39, 115>>, <<32, 46>>, <<32>>, <<>>, <<60, 48, 120, 69, 50, 62>>, <<60, 48, 120, 56, 50, 62>>, <<60, 48, 120, 65, 67, 62>>,
          <<60, 48, 120, 52, 49, 62>>, <<60, 48, 120, 69, 50>>, <<196, 160, 97>>, <<195, 169>>, <<32, 97, 32>>>>
Bound == IF Deep THEN 3 ELSE 2
\* longer lists of bytes only
ByteBound == IF Deep THEN 5 ELSE 4
BytesOnly == <<Bank[7], Bank[8], Bank[9], Bank[2]>>
D(k) == [k |-> k]
Decs ==
  <<[k |-> "WordPiece", prefix |-> <<35, 35>>, cleanup |-> TRUE], [k |-> "WordPiece", prefix |-> <<35, 35>>, cleanup |-> FALSE], D("ByteFallback"), D("Fuse"), D("ByteLevel"),
    [k |-> "Replace", p |-> <<97>>, c |-> <<98, 98>>], [k |-> "Strip", c |-> <<32>>, start |-> 1, stop |-> 0], [k |-> "Strip", c |-> <<97>>, start |-> 1, stop |-> 2],
    [k |-> "Seq", l |-> <<[k |-> "Replace", p |-> <<35, 35>>, c |-> <<32>>], D("ByteFallback"), D("Fuse"), [k |-> "Strip", c |-> <<32>>, start |-> 1, stop |-> 0]>>],
    [k |-> "Seq", l |-> <<>>]>>
MCInit == Init /\ inputTokens = <<>>
MCNext == /\ UNCHANGED <<tks, last>>
          /\ \/ Len(inputTokens) < Bound /\ \E k \in 1..Len(Bank) : inputTokens' = Append(inputTokens, Bank[k])
             \/ Len(inputTokens) < ByteBound /\ ToSet(inputTokens) \subseteq ToSet(BytesOnly) /\ \E k \in 1..Len(BytesOnly) : inputTokens' = Append(inputTokens, BytesOnly[k])
          /\ Emit([k \in 1..Len(Decs) |-> EvChain(Decs[k], inputTokens')])
MCSpec == MCInit /\ [][MCNext]_allvars
R(k) == DecodeChain(Decs[k], inputTokens)
Joined == Flatten(inputTokens)
DecodeLaws ==
  \* token by token decoders keep the number of tokens, fusing leaves one
  /\ \A k \in {1, 2, 6, 7, 8} : Len(R(k)) = Len(inputTokens)
  /\ R(4) = <<Joined>> /\ Len(R(5)) = 1 /\ R(10) = inputTokens
  \* the first token of WordPiece keeps its text; the others lose the prefix or gain a space
  /\ inputTokens # <<>> => R(2)[1] = inputTokens[1] /\ \A k \in 2..Len(inputTokens) : R(2)[k] = <<32>> \o inputTokens[k] \/ inputTokens[k] = <<35, 35>> \o R(2)[k]
  \* a sequence is the composition
  /\ R(9) = DecodeChain(Decs[9].l[4], DecodeChain(Decs[9].l[3], DecodeChain(Decs[9].l[2], DecodeChain(Decs[9].l[1], inputTokens))))
  \* strips take at most what they may, replacing leaves no occurrence that did not come from the content
  /\ \A k \in 1..Len(inputTokens) : Len(inputTokens[k]) - Len(R(7)[k]) \in 0..1 /\ HasSuffix(inputTokens[k], R(7)[k])
  /\ \A k \in 1..Len(inputTokens) : ~(97 \in ToSet(R(6)[k]))
\* runs of byte tokens become the character they spell, or one replacement character each
ByteLaws ==
  LET out == R(3)
      n == Len(SelectSeq(inputTokens, LAMBDA t : ~IsByteToken(t)))
  IN /\ Len(out) >= n /\ Len(out) <= Len(inputTokens)
     /\ (\A k \in 1..Len(inputTokens) : IsByteToken(inputTokens[k])) =>
          LET bs == [k \in 1..Len(inputTokens) |-> ByteOf(inputTokens[k])]
          IN IF inputTokens = <<>> THEN out = <<>> ELSE IF ValidUtf8(bs) THEN out = <<bs>> ELSE out = Fill(Len(inputTokens), Replacement)
     /\ \A k \in 1..Len(out) : ValidUtf8(out[k])
=============================================================================
