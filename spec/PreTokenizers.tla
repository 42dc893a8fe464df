---------------------------- MODULE PreTokenizers ----------------------------
(***************************************************************************)
(* A pre-tokenized text is [n |-> aligned text, s |-> splits]; a split is  *)
(* [i, j, t]: the characters [i, j) of n, and the tokens that claim it     *)
(* (<<>> until an added token or the model does).  A token is              *)
(* [id, v, i, j], its range relative to its split.                         *)
(***************************************************************************)
EXTENDS Normalizers, Regex

Whole(a) == [n |-> a, s |-> <<[i |-> 0, j |-> Len(a.c), t |-> <<>>]>>]
SplitText(pt, x) == Slice(pt.n.c, x.i, x.j)

\* cut every unclaimed split into the non-empty pieces F(text), pairs <<i, j>>
Cut(pt, F(_)) ==
  [pt EXCEPT !.s = Flatten([k \in 1..Len(pt.s) |->
     LET x == pt.s[k] IN
     IF x.t # <<>> THEN <<x>>
     ELSE LET ps == SelectSeq(F(SplitText(pt, x)), LAMBDA p : p[1] < p[2])
          IN [m \in 1..Len(ps) |-> [i |-> x.i + ps[m][1], j |-> x.i + ps[m][2], t |-> <<>>]]])]

\* rewrite the text of every unclaimed split; splits keep tiling the text
Rewrite(pt, F(_)) ==
  LET Part(k) == LET x == pt.s[k]  a == ASlice(pt.n, x.i, x.j) IN IF x.t = <<>> THEN F(a) ELSE a
      Gap(k) == ASlice(pt.n, IF k = 1 THEN 0 ELSE pt.s[k - 1].j, IF k > Len(pt.s) THEN Len(pt.n.c) ELSE pt.s[k].i)
      Step(st, k) ==
        LET before == Cat(st.n, Gap(k))
            after == Cat(before, Part(k))
        IN [n |-> after,
            s |-> Append(st.s, [i |-> Len(before.c), j |-> Len(after.c), t |-> pt.s[k].t])]
      st == FoldLeft(Step, [n |-> EmptyAligned, s |-> <<>>], [k \in 1..Len(pt.s) |-> k])
  IN [st EXCEPT !.n = Cat(st.n, Gap(Len(pt.s) + 1))]

-----------------------------------------------------------------------------
(* Delimiter behaviours, on a partition <<i, j, isMatch>> of the text *)

\* pieces joined with the one before them when Joins(previous is match, is match)
JoinPieces(ps, Joins(_, _)) ==
  FoldLeft(LAMBDA acc, k :
      IF acc # <<>> /\ Joins(ps[k - 1][3], ps[k][3])
      THEN [acc EXCEPT ![Len(acc)] = <<acc[Len(acc)][1], ps[k][2]>>]
      ELSE Append(acc, <<ps[k][1], ps[k][2]>>),
    <<>>, [k \in 1..Len(ps) |-> k])

Delimit(beh, ps) ==
  CASE beh = "Removed" -> LET g == SelectSeq(ps, LAMBDA p : ~p[3]) IN [k \in 1..Len(g) |-> <<g[k][1], g[k][2]>>]
    [] beh = "Isolated" -> [k \in 1..Len(ps) |-> <<ps[k][1], ps[k][2]>>]
    [] beh = "MergedWithPrevious" -> JoinPieces(ps, LAMBDA p, m : m /\ ~p)
    [] beh = "MergedWithNext" -> JoinPieces(ps, LAMBDA p, m : p /\ ~m)
    [] beh = "Contiguous" -> JoinPieces(ps, LAMBDA p, m : p = m)

Invert(ps) == [k \in 1..Len(ps) |-> <<ps[k][1], ps[k][2], ~ps[k][3]>>]

SplitBy(p, t) == Delimit(p.beh, IF p.inv THEN Invert(Partition(p.re, t)) ELSE Partition(p.re, t))

-----------------------------------------------------------------------------
(* BertPreTokenizer: drop whitespace, isolate punctuation *)

Item(t) == [t |-> t]
WsRun == [k |-> "rep", e |-> [k |-> "cls", neg |-> FALSE, items |-> <<Item("s")>>], min |-> 1, max |-> -1, mode |-> "greedy"]
\* Unicode punctuation, and the ASCII symbols $ + < = > ^ ` | ~
IsBertPunct(c) == IsPunct(c) \/ c \in {36, 43, 60, 61, 62, 94, 96, 124, 126}
DropSpaces(t) == Delimit("Removed", Partition(WsRun, t))
IsolatePunct(t) ==
  JoinPieces([k \in 1..Len(t) |-> <<k - 1, k, IsBertPunct(t[k])>>], LAMBDA p, m : ~p /\ ~m)
BertPre(pt) == Cut(Cut(pt, DropSpaces), IsolatePunct)

-----------------------------------------------------------------------------
(* ByteLevel *)

\* the printable character that stands for byte b
ByteChar(b) ==
  IF b <= 32 THEN 256 + b
  ELSE IF b >= 127 /\ b <= 160 THEN 289 + (b - 127)
  ELSE IF b = 173 THEN 323
  ELSE b
ByteAlphabet == {ByteChar(b) : b \in 0..255}
IsByteChar(c) == (c >= 33 /\ c <= 126) \/ (c >= 161 /\ c <= 172) \/ (c >= 174 /\ c <= 323)
\* its inverse
CharByte(c) ==
  IF c >= 256 /\ c <= 288 THEN c - 256
  ELSE IF c >= 289 /\ c <= 322 THEN c - 162
  ELSE IF c = 323 THEN 173
  ELSE c

Lit(s) == [k |-> "lit", s |-> s, ci |-> FALSE]
Cls(neg, items) == [k |-> "cls", neg |-> neg, items |-> items]
G(g) == [t |-> "g", g |-> g]
Plus(e) == [k |-> "rep", e |-> e, min |-> 1, max |-> -1, mode |-> "greedy"]
Opt(e) == [k |-> "rep", e |-> e, min |-> 0, max |-> 1, mode |-> "greedy"]
SpaceThen(e) == [k |-> "seq", l |-> <<Opt(Lit(<<32>>)), Plus(e)>>]
\* 's|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+
Gpt2 ==
  [k |-> "alt", l |-> <<
     Lit(<<39, 115>>), Lit(<<39, 116>>), Lit(<<39, 114, 101>>), Lit(<<39, 118, 101>>), Lit(<<39, 109>>),
     Lit(<<39, 108, 108>>), Lit(<<39, 100>>),
     SpaceThen(Cls(FALSE, <<G("L")>>)), SpaceThen(Cls(FALSE, <<G("N")>>)),
     SpaceThen(Cls(TRUE, <<Item("s"), G("L"), G("N")>>)),
     [k |-> "seq", l |-> <<WsRun, [k |-> "nla", e |-> Cls(FALSE, <<Item("S")>>)]>>],
     WsRun>>]

PrefixSpace(a) ==
  IF a.c # <<>> /\ ~WhiteSpace(a.c[1]) THEN Cat(Carry(<<32>>, a.o[1]), a) ELSE a
ToByteChars(c) == Map(Utf8Char(c), ByteChar)
BytePieces(p, t) == IF p.regex THEN Delimit("Isolated", Partition(Gpt2, t)) ELSE <<<<0, Len(t)>>>>
ByteLevel(p, pt) ==
  LET p1 == IF p.prefix THEN Rewrite(pt, PrefixSpace) ELSE pt
      p2 == Cut(p1, LAMBDA t : BytePieces(p, t))
  IN Rewrite(p2, LAMBDA a : PerChar(a, ToByteChars))

-----------------------------------------------------------------------------
RECURSIVE PreTokenize(_, _)
PreTokenize(p, pt) ==
  CASE p.k = "Bert" -> BertPre(pt)
    [] p.k = "Split" -> Cut(pt, LAMBDA t : SplitBy(p, t))
    [] p.k = "ByteLevel" -> ByteLevel(p, pt)
    [] p.k = "Seq" -> FoldLeft(LAMBDA x, q : PreTokenize(q, x), pt, p.l)
PreTokenizeOpt(opt, pt) == IF opt = <<>> THEN pt ELSE PreTokenize(opt[1], pt)
=============================================================================
