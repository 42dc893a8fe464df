-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of code points (integers); byte strings are         *)
(* sequences of 0..255.  Positions are 1-based here, ranges given to or    *)
(* taken from the implementation are 0-based and half-open.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* the characters of t in the 0-based half-open range [i, j)
Slice(t, i, j) == SubSeq(t, i + 1, j)

\* does p occur in t at the 0-based position i?
OccursAt(p, t, i) == i + Len(p) <= Len(t) /\ SubSeq(t, i + 1, i + Len(p)) = p

HasPrefix(t, p) == OccursAt(p, t, 0)
HasSuffix(t, p) == Len(p) <= Len(t) /\ OccursAt(p, t, Len(t) - Len(p))

\* the sequences of s joined, half by half (FlattenSeq is not evaluated so)
RECURSIVE JoinRange(_, _, _)
JoinRange(s, i, j) ==
  IF i > j THEN <<>> ELSE IF i = j THEN s[i]
  ELSE LET m == (i + j) \div 2 IN JoinRange(s, i, m) \o JoinRange(s, m + 1, j)
Flatten(s) == JoinRange(s, 1, Len(s))

\* the first position of lo..hi at which Test holds, hi when it holds nowhere before
FirstIn(lo, hi, Test(_)) ==
  CHOOSE j \in lo..hi : (j = hi \/ Test(j)) /\ \A x \in lo..(j - 1) : ~Test(x)

Map(t, Op(_)) == [i \in 1..Len(t) |-> Op(t[i])]

FlatMap(t, Op(_)) == Flatten([i \in 1..Len(t) |-> Op(t[i])])

\* the 0-based starts of the leftmost non-overlapping occurrences of p in t
Occurrences(p, t) ==
  IF p = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA st, i : IF i >= st.at /\ OccursAt(p, t, i) THEN [at |-> i + Len(p), out |-> Append(st.out, i)] ELSE st,
                [at |-> 0, out |-> <<>>], [k \in 1..Len(t) |-> k - 1]).out

\* t with every leftmost non-overlapping occurrence of p replaced by c
Substitute(t, p, c) ==
  LET occ == Occurrences(p, t)
      n == Len(occ)
      Piece(k) == Slice(t, IF k = 1 THEN 0 ELSE occ[k - 1] + Len(p), IF k > n THEN Len(t) ELSE occ[k])
  IN IF n = 0 THEN t
     ELSE Flatten([k \in 1..(2 * n + 1) |-> IF k % 2 = 1 THEN Piece((k + 1) \div 2) ELSE c])

-----------------------------------------------------------------------------
(* UTF-8 *)

IsScalar(c) == c \in 0..1114111 /\ ~(c >= 55296 /\ c <= 57343)

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf8(t) == FlatMap(t, Utf8Char)

\* Length of the well-formed UTF-8 sequence that starts at b[i] (1-based), 0 if there is none
\* (Unicode Standard, table 3-7).
Utf8Len(b, i) ==
  LET n == Len(b)
      Cont(k, lo, hi) == i + k <= n /\ b[i + k] >= lo /\ b[i + k] <= hi
      x == b[i]
  IN CASE x < 128 -> 1
       [] x >= 194 /\ x <= 223 -> IF Cont(1, 128, 191) THEN 2 ELSE 0
       [] x >= 224 /\ x <= 239 ->
            IF /\ Cont(1, IF x = 224 THEN 160 ELSE 128, IF x = 237 THEN 159 ELSE 191)
               /\ Cont(2, 128, 191) THEN 3 ELSE 0
       [] x >= 240 /\ x <= 244 ->
            IF /\ Cont(1, IF x = 240 THEN 144 ELSE 128, IF x = 244 THEN 143 ELSE 191)
               /\ Cont(2, 128, 191) /\ Cont(3, 128, 191) THEN 4 ELSE 0
       [] OTHER -> 0

\* where its characters begin: the bytes that do not continue one
CharStarts(b) == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] < 128 \/ b[i] > 191)
ValidUtf8(b) ==
  LET at == CharStarts(b)
      next == Append(Tail(at), Len(b) + 1)
  IN b = <<>> \/ (at # <<>> /\ at[1] = 1 /\ \A k \in 1..Len(at) : Utf8Len(b, at[k]) = next[k] - at[k])

CharAt(b, i) ==
  LET k == Utf8Len(b, i)
  IN CASE k = 1 -> b[i]
       [] k = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
       [] k = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
       [] OTHER -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
\* the code points of a valid UTF-8 byte string
FromUtf8(b) == LET at == CharStarts(b) IN [k \in 1..Len(at) |-> CharAt(b, at[k])]

\* the ASCII codes of a TLA+ string literal are not available: literals the
\* implementation contains are written as code sequences where they are used.
=============================================================================
