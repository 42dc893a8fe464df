------------------------------- MODULE Unicode -------------------------------
(***************************************************************************)
(* The Unicode character properties the tokenizer's stages depend on.      *)
(* The tables are Unicode 15.1 data, generated by bin/mkunicode.py from a  *)
(* source independent of the ICU library the implementation uses.          *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

UData == JsonDeserialize(IOEnv.VERIF_UNICODE)

GcS == UData.gcs
GcV == UData.gcv
CccS == UData.cccs
CccV == UData.cccv
WsS == UData.wss
WsV == UData.wsv
CanonK == UData.canonk
CanonV == UData.canonv
CompatK == UData.compatk
CompatV == UData.compatv
CompK == UData.compk
CompV == UData.compv
Comp2 == UData.comp2
LowK == UData.lowk
LowV == UData.lowv

\* the largest i in lo..hi with a[i] <= c, given a[lo] <= c
RECURSIVE Search(_, _, _, _)
Search(a, c, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF a[m] <= c THEN Search(a, c, m, hi) ELSE Search(a, c, lo, m - 1)

Lookup(s, v, c) == v[Search(s, c, 1, Len(s))]
IsKey(k, c) == c >= k[1] /\ k[Search(k, c, 1, Len(k))] = c

\* general category, canonical combining class, White_Space
Gc(c) == Lookup(GcS, GcV, c)
Ccc(c) == IF c < 768 THEN 0 ELSE Lookup(CccS, CccV, c)
WhiteSpace(c) == Lookup(WsS, WsV, c) = 1

IsLetter(c) == Gc(c) \in {"Lu", "Ll", "Lt", "Lm", "Lo"}
IsMark(c) == Gc(c) \in {"Mn", "Mc", "Me"}
IsNumber(c) == Gc(c) \in {"Nd", "Nl", "No"}
IsPunct(c) == Gc(c) \in {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"}
\* the characters that touch a single_word token: \w in HF's pattern
IsWordChar(c) == IsLetter(c) \/ IsMark(c) \/ Gc(c) \in {"Nd", "Nl", "Pc"}

\* one-to-one lowercase
Lower(c) == IF c < 65 THEN c ELSE IF IsKey(LowK, c) THEN Lookup(LowK, LowV, c) ELSE c

-----------------------------------------------------------------------------
(* Normalization forms (UAX #15).  A form is "NFC", "NFD", "NFKC", "NFKD". *)

Compat(form) == form \in {"NFKC", "NFKD"}
Composes(form) == form \in {"NFC", "NFKC"}

SBase == 44032   LBase == 4352   VBase == 4449   TBase == 4519
IsHangul(c) == c >= 44032 /\ c <= 55203
HangulDecomp(c) ==
  LET s == c - SBase
  IN <<LBase + (s \div 588), VBase + ((s % 588) \div 28)>>
     \o (IF s % 28 = 0 THEN <<>> ELSE <<TBase + (s % 28)>>)

\* full decomposition of one character
RECURSIVE DecompChar(_, _)
DecompChar(compat, c) ==
  IF c < 160 THEN <<c>>
  ELSE IF IsHangul(c) THEN HangulDecomp(c)
  ELSE IF IsKey(CanonK, c)
       THEN LET d == Lookup(CanonK, CanonV, c) IN Flatten([i \in 1..Len(d) |-> DecompChar(compat, d[i])])
  ELSE IF compat /\ IsKey(CompatK, c)
       THEN LET d == Lookup(CompatK, CompatV, c) IN Flatten([i \in 1..Len(d) |-> DecompChar(compat, d[i])])
  ELSE <<c>>

Decompose(compat, t) == Flatten([i \in 1..Len(t) |-> DecompChar(compat, t[i])])

\* canonical ordering: insert each character before the following non-starters of greater class
RECURSIVE InsertOrdered(_, _, _)
InsertOrdered(t, c, k) ==
  IF Len(t) > 0 /\ k > 0 /\ Ccc(t[Len(t)]) > k
  THEN Append(InsertOrdered(SubSeq(t, 1, Len(t) - 1), c, k), t[Len(t)])
  ELSE Append(t, c)
Reorder(t) == FoldLeft(LAMBDA acc, c : InsertOrdered(acc, c, Ccc(c)), <<>>, t)

\* the primary composite of a and b, or -1
CompositeOf(a, b) ==
  IF a >= LBase /\ a < LBase + 19 /\ b >= VBase /\ b < VBase + 21
  THEN SBase + ((a - LBase) * 21 + (b - VBase)) * 28
  ELSE IF IsHangul(a) /\ (a - SBase) % 28 = 0 /\ b > TBase /\ b < TBase + 28
  THEN a + (b - TBase)
  ELSE IF a >= CompK[1] /\ IsKey(CompK, a)
  THEN LET alts == Lookup(CompK, CompV, a)
           hit == SelectSeq(alts, LAMBDA p : p[1] = b)
       IN IF hit = <<>> THEN -1 ELSE hit[1][2]
  ELSE -1

\* canonical composition: st.r result so far, st.s index of the last starter
\* (0: none), st.k class of the last character kept after it (0: none kept)
ComposeStep(st, c) ==
  LET k == Ccc(c)
      adjacent == st.s = Len(st.r)
      open == st.s > 0 /\ (adjacent \/ (st.k # 0 /\ st.k < k))
      x == IF open THEN CompositeOf(st.r[st.s], c) ELSE -1
  IN IF x # -1 THEN [st EXCEPT !.r[st.s] = x]
     ELSE IF k = 0 THEN [r |-> Append(st.r, c), s |-> Len(st.r) + 1, k |-> 0]
     ELSE [r |-> Append(st.r, c), s |-> st.s, k |-> k]
Compose(t) == FoldLeft(ComposeStep, [r |-> <<>>, s |-> 0, k |-> 0], t).r

NormalForm(form, t) ==
  LET d == Reorder(Decompose(Compat(form), t))
  IN IF Composes(form) THEN Compose(d) ELSE d

\* Is there a normalization boundary before c: can c neither move before nor
\* compose with anything that precedes it?
BoundaryBefore(form, c) ==
  c < 160 \/
  LET d == DecompChar(Compat(form), c)[1]
  IN /\ Ccc(d) = 0
     /\ Composes(form) => ~(\/ d \in {Comp2[i] : i \in 1..Len(Comp2)}
                            \/ d >= VBase /\ d < VBase + 21
                            \/ d > TBase /\ d < TBase + 28)
=============================================================================
