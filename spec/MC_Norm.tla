------------------------------- MODULE MC_Norm -------------------------------
(* C03, C06, C07, C08: every short inputText over characters that normalizers treat specially. *)
EXTENDS MCBase
VARIABLES inputText
allvars == <<tks, last, inputText>>

\* a A e-acute e-dot-below-dot-above acute cedilla(ccc 202) | Hangul L, V, T, LV | Angstrom, fi, tab, no-break space,
\* CJK, ZWJ, dotted I, spacing mark, NUL
Quick0 == {97, 65, 233, 7785, 769, 807, 4352, 4449, 4520, 44032, 8491, 64257, 9, 160, 20013, 8205, 304, 2363, 0}
More == {101, 837, 8486, 119134, 32, 66560, 3635, 803}
Chars == IF Deep THEN Quick0 \cup More ELSE Quick0
Bound == IF Deep THEN 3 ELSE 2
BN(c, j, s, l) == [k |-> "Bert", clean |-> c, cjk |-> j, strip |-> s, lower |-> l]
F(f) == [k |-> f]
S(l) == [k |-> "Seq", l |-> l]
Rep(p, c) == [k |-> "Replace", p |-> p, c |-> c]
Norms ==
  <<F("NFC"), F("NFD"), F("NFKC"), F("NFKD"), F("StripAccents"),
    BN(TRUE, TRUE, 2, TRUE), BN(TRUE, FALSE, 0, FALSE), BN(FALSE, TRUE, 1, FALSE), BN(FALSE, FALSE, 2, TRUE), BN(FALSE, FALSE, 0, TRUE),
    [k |-> "Prepend", s |-> <<9601, 97>>], Rep(<<97>>, <<>>), Rep(<<769>>, <<97, 98, 99>>), Rep(<<97, 97>>, <<97>>),
    [k |-> "Strip", left |-> TRUE, right |-> FALSE], [k |-> "Strip", left |-> FALSE, right |-> TRUE],
    S(<<F("NFD"), F("StripAccents")>>), S(<<F("NFKD"), BN(TRUE, TRUE, 0, TRUE), F("NFC")>>), S(<<[k |-> "Prepend", s |-> <<97>>], Rep(<<97>>, <<98, 98>>), F("NFC")>>),
    S(<<>>)>>

MCInit == Init /\ inputText = <<>>
MCNext == /\ Len(inputText) < Bound /\ UNCHANGED <<tks, last>>
          /\ \E c \in Chars : inputText' = Append(inputText, c)
          /\ Emit([k \in 1..Len(Norms) |-> EvNorm(Norms[k], inputText')])
MCSpec == MCInit /\ [][MCNext]_allvars

N(f, t) == Normalize(F(f), Aligned(t)).c
\* the laws of the normal forms (UAX #15)
FormLaws ==
  /\ \A f \in {"NFC", "NFD", "NFKC", "NFKD"} : N(f, N(f, inputText)) = N(f, inputText)
  /\ N("NFC", N("NFD", inputText)) = N("NFC", inputText) /\ N("NFD", N("NFC", inputText)) = N("NFD", inputText)
  /\ N("NFKC", N("NFD", inputText)) = N("NFKC", inputText) /\ N("NFKC", N("NFKD", inputText)) = N("NFKC", inputText)
  /\ N("NFD", N("NFKC", inputText)) = N("NFKD", inputText)
  /\ Len(N("NFC", inputText)) <= Len(N("NFD", inputText)) /\ Len(N("NFKC", inputText)) <= Len(N("NFKD", inputText))
  \* canonical order
  /\ LET d == N("NFD", inputText) IN \A k \in 2..Len(d) : Ccc(d[k]) = 0 \/ Ccc(d[k - 1]) <= Ccc(d[k])
\* every character of a result derives from a non-empty range of the inputText, the ranges never go back,
\* and a character kept where it was is its own origin
AlignLaws ==
  \A k \in 1..Len(Norms) :
    LET r == Normalize(Norms[k], Aligned(inputText)) IN
    /\ Len(r.o) = Len(r.c)
    /\ \A x \in 1..Len(r.o) : 0 <= r.o[x][1] /\ r.o[x][1] < r.o[x][2] /\ r.o[x][2] <= Len(inputText)
    /\ \A x \in 2..Len(r.o) : r.o[x - 1][1] <= r.o[x][1] /\ r.o[x - 1][2] <= r.o[x][2]
    /\ r.c = inputText => r.o = Aligned(inputText).o \/ Norms[k].k = "Seq"
BertLaws ==
  LET clean == Normalize(BN(TRUE, FALSE, 0, FALSE), Aligned(inputText)).c
      lower == Normalize(BN(FALSE, FALSE, 0, TRUE), Aligned(inputText)).c
      bare == Normalize(BN(FALSE, FALSE, 1, FALSE), Aligned(inputText)).c
      cjk == Normalize(BN(FALSE, TRUE, 0, FALSE), Aligned(inputText)).c
  IN /\ \A x \in ToSet(clean) : x # 0 /\ Gc(x) \notin {"Cc", "Cf"} /\ (WhiteSpace(x) => x = 32)
     /\ Len(lower) = Len(inputText) /\ Normalize(BN(FALSE, FALSE, 0, TRUE), Aligned(lower)).c = lower
     /\ \A x \in ToSet(bare) : Gc(x) # "Mn"
     /\ \A x \in 1..Len(cjk) : IsCjk(cjk[x]) => cjk[x - 1] = 32 /\ cjk[x + 1] = 32
     /\ SelectSeq(cjk, LAMBDA x : x # 32) = SelectSeq(inputText, LAMBDA x : x # 32)
StripLaws ==
  LET r == Normalize([k |-> "Strip", left |-> TRUE, right |-> TRUE], Aligned(inputText)) IN
  /\ r.c # <<>> => ~WhiteSpace(r.c[1]) /\ ~WhiteSpace(r.c[Len(r.c)]) /\ Slice(inputText, r.o[1][1], r.o[Len(r.o)][2]) = r.c
  /\ r.c = <<>> <=> \A x \in ToSet(inputText) : WhiteSpace(x)
=============================================================================
