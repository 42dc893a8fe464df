----------------------------- MODULE Normalizers -----------------------------
(***************************************************************************)
(* Aligned texts and the normalizers.                                      *)
(*                                                                         *)
(* An aligned text is [c |-> text, o |-> ranges]: o[i] is the 0-based      *)
(* half-open range of the original text that character i derives from.     *)
(***************************************************************************)
EXTENDS Unicode

Aligned(t) == [c |-> t, o |-> [i \in 1..Len(t) |-> <<i - 1, i>>]]
EmptyAligned == [c |-> <<>>, o |-> <<>>]
Cat(a, b) == [c |-> a.c \o b.c, o |-> a.o \o b.o]
CatAll(s) == [c |-> Flatten([i \in 1..Len(s) |-> s[i].c]), o |-> Flatten([i \in 1..Len(s) |-> s[i].o])]
ASlice(a, i, j) == [c |-> SubSeq(a.c, i + 1, j), o |-> SubSeq(a.o, i + 1, j)]
\* every character of t carries the range r
Carry(t, r) == [c |-> t, o |-> [i \in 1..Len(t) |-> r]]

\* the smallest range covering what the characters [i, j) derive from
Origin(a, i, j) ==
  <<FoldLeft(LAMBDA m, r : MinI(m, r[1]), a.o[i + 1][1], SubSeq(a.o, i + 1, j)),
    FoldLeft(LAMBDA m, r : MaxI(m, r[2]), a.o[i + 1][2], SubSeq(a.o, i + 1, j))>>

\* one aligned text per character, concatenated; Op gives the characters each becomes
PerChar(a, Op(_)) ==
  CatAll([i \in 1..Len(a.c) |-> Carry(Op(a.c[i]), a.o[i])])

-----------------------------------------------------------------------------
(* The Unicode forms.  The characters between two normalization boundaries  *)
(* are rewritten together: when they change, each result derives from all.  *)

\* 0-based starts of the segments of t, and its length
Cuts(form, t) ==
  SelectSeq([i \in 1..Len(t) |-> i - 1], LAMBDA i : i = 0 \/ BoundaryBefore(form, t[i + 1])) \o <<Len(t)>>

UnicodeForm(form, a) ==
  IF a.c = <<>> THEN a
  ELSE LET cuts == Cuts(form, a.c)
           Seg(k) == LET i == cuts[k]  j == cuts[k + 1]
                         s == Slice(a.c, i, j)
                         n == NormalForm(form, s)
                     IN IF n = s THEN ASlice(a, i, j) ELSE Carry(n, Origin(a, i, j))
       IN CatAll([k \in 1..(Len(cuts) - 1) |-> Seg(k)])

-----------------------------------------------------------------------------
(* BertNormalizer *)

IsControl(c) == c \notin {9, 10, 13} /\ Gc(c) \in {"Cc", "Cf"}
CleanChar(c) ==
  IF c = 0 \/ c = 65533 \/ IsControl(c) THEN <<>>
  ELSE IF WhiteSpace(c) THEN <<32>>
  ELSE <<c>>
\* the CJK ranges of BERT, as Hugging Face tokenizers has them
IsCjk(c) ==
  \/ c >= 19968 /\ c <= 40959      \* 4E00..9FFF
  \/ c >= 13312 /\ c <= 19903      \* 3400..4DBF
  \/ c >= 131072 /\ c <= 173791    \* 20000..2A6DF
  \/ c >= 173824 /\ c <= 177983    \* 2A700..2B73F
  \/ c >= 177984 /\ c <= 178207    \* 2B740..2B81F
  \/ c >= 178464 /\ c <= 183983    \* 2B920..2CEAF
  \/ c >= 63744 /\ c <= 64255      \* F900..FAFF
  \/ c >= 194560 /\ c <= 195103    \* 2F800..2FA1F
CjkChar(c) == IF IsCjk(c) THEN <<32, c, 32>> ELSE <<c>>
DropMn(c) == IF Gc(c) = "Mn" THEN <<>> ELSE <<c>>
LowerChar(c) == <<Lower(c)>>

\* accents are stripped when asked for, or when nothing is said and lowercase is on
StripsAccents(n) == n.strip = 1 \/ (n.strip = 2 /\ n.lower)

Bert(n, a) ==
  LET a1 == IF n.clean THEN PerChar(a, CleanChar) ELSE a
      a2 == IF n.cjk THEN PerChar(a1, CjkChar) ELSE a1
      a3 == IF StripsAccents(n) THEN PerChar(UnicodeForm("NFD", a2), DropMn) ELSE a2
  IN IF n.lower THEN PerChar(a3, LowerChar) ELSE a3

-----------------------------------------------------------------------------
(* The rewriting normalizers *)

Prepend(s, a) == IF a.c = <<>> THEN a ELSE Cat(Carry(s, a.o[1]), a)

ReplaceAligned(p, s, a) ==
  LET occ == Occurrences(p, a.c)
      n == Len(occ)
      Gap(k) == ASlice(a, IF k = 1 THEN 0 ELSE occ[k - 1] + Len(p), IF k > n THEN Len(a.c) ELSE occ[k])
  IN CatAll([k \in 1..(2 * n + 1) |->
              IF k % 2 = 1 THEN Gap((k + 1) \div 2)
              ELSE Carry(s, Origin(a, occ[k \div 2], occ[k \div 2] + Len(p)))])

\* the end of the white space that starts at i, and the start of the one that ends at j
WsEnd(t, i) == FirstIn(i, Len(t), LAMBDA k : ~WhiteSpace(t[k + 1]))
WsStart(t, lo, j) == j - FirstIn(0, j - lo, LAMBDA d : ~WhiteSpace(t[j - d]))
StripWs(left, right, a) ==
  LET i == IF left THEN WsEnd(a.c, 0) ELSE 0
      j == IF right THEN WsStart(a.c, i, Len(a.c)) ELSE Len(a.c)
  IN ASlice(a, i, j)

DropMarks(c) == IF IsMark(c) THEN <<>> ELSE <<c>>

-----------------------------------------------------------------------------
\* n is a normalizer of the configuration, a an aligned text
RECURSIVE Normalize(_, _)
Normalize(n, a) ==
  CASE n.k \in {"NFC", "NFD", "NFKC", "NFKD"} -> UnicodeForm(n.k, a)
    [] n.k = "Bert" -> Bert(n, a)
    [] n.k = "Prepend" -> Prepend(n.s, a)
    [] n.k = "Replace" -> ReplaceAligned(n.p, n.c, a)
    [] n.k = "Strip" -> StripWs(n.left, n.right, a)
    [] n.k = "StripAccents" -> PerChar(a, DropMarks)
    [] n.k = "Seq" -> FoldLeft(LAMBDA x, m : Normalize(m, x), a, n.l)

\* the configuration's normalizer: <<>> when null
NormalizeOpt(opt, a) == IF opt = <<>> THEN a ELSE Normalize(opt[1], a)
=============================================================================
