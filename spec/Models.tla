------------------------------- MODULE Models --------------------------------
(***************************************************************************)
(* WordPiece and BPE.  A model m is the configuration's; voc the function  *)
(* from token texts to ids its vocab gives, tbl the merge table.           *)
(* Words are texts; the result is a sequence of tokens [id, v, i, j].      *)
(***************************************************************************)
EXTENDS PreTokenizers

\* functions from the pair lists of a configuration
VocabOf(m) == LET keys == {m.vocab[k][1] : k \in 1..Len(m.vocab)}
              IN [t \in keys |-> LET k == CHOOSE x \in 1..Len(m.vocab) : m.vocab[x][1] = t IN m.vocab[k][2]]
RevOf(m) == LET ids == {m.vocab[k][2] : k \in 1..Len(m.vocab)}
            IN [d \in ids |-> LET k == CHOOSE x \in 1..Len(m.vocab) : m.vocab[x][2] = d IN m.vocab[k][1]]

-----------------------------------------------------------------------------
(* WordPiece *)

UnkToken(m, voc, w) ==
  <<[id |-> IF m.unk \in DOMAIN voc THEN voc[m.unk] ELSE 0, v |-> m.unk, i |-> 0, j |-> Len(w)]>>

Candidate(m, w, i, j) == IF i > 0 THEN m.cont \o Slice(w, i, j) ELSE Slice(w, i, j)

\* the largest end in (i, j] of an entry matching at i, or i when there is none
RECURSIVE LongestEnd(_, _, _, _, _)
LongestEnd(m, voc, w, i, j) ==
  IF j = i THEN i
  ELSE IF Candidate(m, w, i, j) \in DOMAIN voc THEN j
  ELSE LongestEnd(m, voc, w, i, j - 1)

\* no entry is longer than top
RECURSIVE Greedy(_, _, _, _, _, _)
Greedy(m, voc, top, w, i, acc) ==
  IF i = Len(w) THEN acc
  ELSE LET j == LongestEnd(m, voc, w, i, MinI(Len(w), i + top))
           v == Candidate(m, w, i, j)
       IN IF j = i THEN UnkToken(m, voc, w)
          ELSE Greedy(m, voc, top, w, j, Append(acc, [id |-> voc[v], v |-> v, i |-> i, j |-> j]))

WordPiece(m, voc, top, w) ==
  IF Len(w) > m.maxc THEN UnkToken(m, voc, w) ELSE Greedy(m, voc, top, w, 0, <<>>)

-----------------------------------------------------------------------------
(* BPE *)

FirstSpace(t) == LET at == SelectInSeq(t, LAMBDA c : c = 32) IN at

\* <<left, right>> ids -> <<rank, new id>>; the first of several equal merges counts,
\* a merge whose parts or result are unknown does not
MergeTable(m, voc) ==
  LET Entry(k) ==
        LET s == m.merges[k]
            p == FirstSpace(s)
            a == SubSeq(s, 1, p - 1)
            b == SubSeq(s, p + 1, Len(s))
            ab == a \o SubSeq(b, Len(m.cont) + 1, Len(b))
        IN IF p > 0 /\ a \in DOMAIN voc /\ b \in DOMAIN voc /\ ab \in DOMAIN voc
           THEN <<<<<<voc[a], voc[b]>>, <<k - 1, voc[ab]>>>>>> ELSE <<>>
      all == Flatten([k \in 1..Len(m.merges) |-> Entry(k)])
      keys == {all[k][1] : k \in 1..Len(all)}
  IN [q \in keys |-> all[CHOOSE k \in 1..Len(all) : all[k][1] = q /\ \A x \in 1..(k - 1) : all[x][1] # q][2]]

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
ByteToken(b) == <<60, 48, 120, HexDigit(b \div 16), HexDigit(b % 16), 62>>

\* symbols are [id, i, j]
Flush(st) == [out |-> st.out \o st.unk, unk |-> <<>>]
CutStep(m, voc, w, st, k) ==
  LET s == (IF k > 1 THEN m.cont ELSE <<>>) \o <<w[k]>> \o (IF k = Len(w) THEN m.eow ELSE <<>>)
      bytes == Utf8(s)
      toks == [x \in 1..Len(bytes) |-> ByteToken(bytes[x])]
      Sym(d) == [id |-> d, i |-> k - 1, j |-> k]
  IN IF s \in DOMAIN voc
     THEN [Flush(st) EXCEPT !.out = Append(@, Sym(voc[s]))]
     ELSE IF m.bf /\ \A x \in 1..Len(toks) : toks[x] \in DOMAIN voc
     THEN [Flush(st) EXCEPT !.out = @ \o [x \in 1..Len(toks) |-> Sym(voc[toks[x]])]]
     ELSE IF m.unk = <<>> \/ m.unk \notin DOMAIN voc THEN st
     ELSE IF m.fuse /\ st.unk # <<>> THEN [st EXCEPT !.unk[1].j = k]
     ELSE [out |-> Flush(st).out, unk |-> <<Sym(voc[m.unk])>>]
CutWord(m, voc, w) ==
  Flush(FoldLeft(LAMBDA st, k : CutStep(m, voc, w, st, k), [out |-> <<>>, unk |-> <<>>], [k \in 1..Len(w) |-> k])).out

\* One merge.  The applicable merges of the symbols s, the chosen one, its effect.
Applicable(tbl, s) == {k \in 1..(Len(s) - 1) : <<s[k].id, s[k + 1].id>> \in DOMAIN tbl}
RankAt(tbl, s, k) == tbl[<<s[k].id, s[k + 1].id>>][1]
Chosen(tbl, s) ==
  CHOOSE k \in Applicable(tbl, s) :
    \A x \in Applicable(tbl, s) : RankAt(tbl, s, k) < RankAt(tbl, s, x) \/ (RankAt(tbl, s, k) = RankAt(tbl, s, x) /\ k <= x)
MergeAt(tbl, s, k) ==
  SubSeq(s, 1, k - 1)
  \o <<[id |-> tbl[<<s[k].id, s[k + 1].id>>][2], i |-> s[k].i, j |-> s[k + 1].j]>>
  \o SubSeq(s, k + 2, Len(s))

\* Chosen, found in one pass; 0 when no merge is applicable
Lowest(tbl, s) ==
  FoldLeft(LAMBDA best, k : IF <<s[k].id, s[k + 1].id>> \in DOMAIN tbl /\ (best = 0 \/ RankAt(tbl, s, k) < RankAt(tbl, s, best)) THEN k ELSE best,
           0, [k \in 1..(Len(s) - 1) |-> k])

RECURSIVE MergeAll(_, _)
MergeAll(tbl, s) == LET k == Lowest(tbl, s) IN IF k = 0 THEN s ELSE MergeAll(tbl, MergeAt(tbl, s, k))

\* Dropout p: m.drop = 0 (none), 1 (every merge dropped), 2 (0 < p < 1).
\* The result when 0 < p < 1 is any the process below can reach: at every
\* step some applicable merges may be passed over, or the process stops.
RECURSIVE Reachable(_, _)
Reachable(tbl, s) == {s} \cup UNION {Reachable(tbl, MergeAt(tbl, s, k)) : k \in Applicable(tbl, s)}

SymTokens(rev, s) == [k \in 1..Len(s) |-> [id |-> s[k].id, v |-> rev[s[k].id], i |-> s[k].i, j |-> s[k].j]]

Bpe(m, voc, rev, tbl, w) ==
  IF m.ign /\ w \in DOMAIN voc THEN <<[id |-> voc[w], v |-> w, i |-> 0, j |-> Len(w)]>>
  ELSE LET s == CutWord(m, voc, w) IN SymTokens(rev, IF m.drop = 1 THEN s ELSE MergeAll(tbl, s))

-----------------------------------------------------------------------------
(* A compiled model: [m, voc, rev, tbl], or <<>> when the model is null *)

Compile(opt) ==
  IF opt = <<>> THEN <<>>
  ELSE LET m == opt[1]
           voc == VocabOf(m)
       IN <<[m |-> m, voc |-> voc, top |-> FoldLeft(LAMBDA n, x : MaxI(n, Len(x[1])), 0, m.vocab), rev |-> RevOf(m), tbl |-> IF m.k = "BPE" THEN MergeTable(m, voc) ELSE <<>>]>>

TokenizeWord(cm, w) ==
  IF cm.m.k = "WordPiece" THEN WordPiece(cm.m, cm.voc, cm.top, w) ELSE Bpe(cm.m, cm.voc, cm.rev, cm.tbl, w)

\* the model tokenizes every unclaimed split
ApplyModel(opt, pt) ==
  IF opt = <<>> THEN pt
  ELSE [pt EXCEPT !.s = [k \in 1..Len(pt.s) |->
          IF pt.s[k].t # <<>> THEN pt.s[k] ELSE [pt.s[k] EXCEPT !.t = TokenizeWord(opt[1], SplitText(pt, pt.s[k]))]]]
=============================================================================
