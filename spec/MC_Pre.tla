------------------------------- MODULE MC_Pre --------------------------------
(* C09, C10: every short inputText over characters that pre-tokenizers treat specially. *)
EXTENDS MCBase
VARIABLES inputText
allvars == <<tks, last, inputText>>
Chars == {97, 32, 39, 115, 49, 233} \cup (IF Deep THEN {44, 128512, 10} ELSE {44})
Bound == IF Deep THEN 4 ELSE 3
Behs == <<"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous">>
Res == <<Cls(FALSE, <<G("L")>>), Plus(Cls(FALSE, <<Item("s")>>)), Lit(<<97, 32>>), [k |-> "rep", e |-> Lit(<<97>>), min |-> 0, max |-> -1, mode |-> "greedy"],
         [k |-> "la", e |-> Lit(<<39>>)]>>
Splits0 == Flatten([x \in 1..Len(Res) |-> Flatten([b \in 1..Len(Behs) |-> [i \in 1..2 |-> [k |-> "Split", re |-> Res[x], beh |-> Behs[b], inv |-> i = 2]]])])
BL(p, r) == [k |-> "ByteLevel", prefix |-> p, regex |-> r]
Bytes4 == <<BL(FALSE, FALSE), BL(FALSE, TRUE), BL(TRUE, FALSE), BL(TRUE, TRUE)>>
Others == <<[k |-> "Bert"], [k |-> "Seq", l |-> <<[k |-> "Bert"], BL(TRUE, TRUE)>>], [k |-> "Seq", l |-> <<Splits0[3], BL(FALSE, FALSE)>>], [k |-> "Seq", l |-> <<>>]>>
All == Splits0 \o Bytes4 \o Others

MCInit == Init /\ inputText = <<>>
MCNext == /\ Len(inputText) < Bound /\ UNCHANGED <<tks, last>>
          /\ \E c \in Chars : inputText' = Append(inputText, c)
          /\ Emit([k \in 1..Len(All) |-> EvPre(All[k], inputText')])
MCSpec == MCInit /\ [][MCNext]_allvars

P(p) == PreTokenize(p, Whole(Aligned(inputText)))
Ordered(r) == \A k \in 1..Len(r.s) : r.s[k].i < r.s[k].j /\ r.s[k].j <= Len(r.n.c) /\ (k > 1 => r.s[k - 1].j <= r.s[k].i)
Tiles(r) == \A k \in 1..Len(r.s) : r.s[k].i = IF k = 1 THEN 0 ELSE r.s[k - 1].j
Covered(r) == UNION {r.s[k].i..(r.s[k].j - 1) : k \in 1..Len(r.s)}
Pieces1(r) == [k \in 1..Len(r.s) |-> SplitText(r, r.s[k])]
PartitionLaws ==
  /\ inputText # <<>> => \A k \in 1..Len(All) : Ordered(P(All[k]))
  \* nothing is lost, unless it is to be removed
  /\ \A k \in 1..Len(Splits0) : LET r == P(Splits0[k]) IN
       /\ r.n = Aligned(inputText)
       /\ (inputText # <<>> /\ Splits0[k].beh # "Removed") => Tiles(r) /\ Flatten(Pieces1(r)) = inputText
  \* what Removed keeps and what it keeps inverted are the two halves of the inputText; Isolated is the same inverted or not
  /\ \A x \in 1..Len(Res) : LET D(b, i) == P([k |-> "Split", re |-> Res[x], beh |-> b, inv |-> i]) IN
       /\ Covered(D("Removed", TRUE)) \cap Covered(D("Removed", FALSE)) = {}
       /\ Covered(D("Removed", TRUE)) \cup Covered(D("Removed", FALSE)) = 0..(Len(inputText) - 1)
       /\ D("Isolated", TRUE) = D("Isolated", FALSE) /\ D("Contiguous", TRUE) = D("Contiguous", FALSE)
       /\ Len(D("Contiguous", FALSE).s) <= Len(D("Isolated", FALSE).s)
BertLaw ==
  LET r == P([k |-> "Bert"]) IN
  /\ Covered(r) = {i \in 0..(Len(inputText) - 1) : ~WhiteSpace(inputText[i + 1])}
  /\ \A k \in 1..Len(r.s) : LET t == SplitText(r, r.s[k]) IN (\E c \in ToSet(t) : IsBertPunct(c)) => Len(t) = 1
  /\ \A k \in 2..Len(r.s) : r.s[k - 1].j = r.s[k].i => IsBertPunct(r.n.c[r.s[k].i]) \/ IsBertPunct(r.n.c[r.s[k].i + 1])
\* the pieces decode to the inputText, in one token each or together, whatever the splitting
RoundTrip ==
  \A k \in 1..Len(Bytes4) :
    LET r == P(Bytes4[k])
        ps == [x \in 1..Len(r.s) |-> Utf8(SplitText(r, r.s[x]))]
        want == Utf8(IF Bytes4[k].prefix /\ inputText # <<>> /\ ~WhiteSpace(inputText[1]) THEN <<32>> \o inputText ELSE inputText)
    IN /\ Flatten(ByteLevelDecode(ps)) = want
       /\ Flatten(ByteLevelDecode(<<Flatten(ps)>>)) = want
       /\ Flatten(ByteLevelDecode([x \in 1..Len(r.n.c) |-> Utf8Char(r.n.c[x])])) = want
       /\ Tiles(r) /\ \A c \in ToSet(r.n.c) : c \in ByteAlphabet
Alphabet == inputText = <<>> => Cardinality(ByteAlphabet) = 256 /\ \A b \in 0..255 : CharByte(ByteChar(b)) = b /\ IsByteChar(ByteChar(b)) /\ ~WhiteSpace(ByteChar(b))
=============================================================================
