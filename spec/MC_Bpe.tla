------------------------------- MODULE MC_Bpe --------------------------------
(* C12: every short merge list over a small vocabulary, every short word. *)
EXTENDS MCBase
VARIABLES mergeList, chosen
allvars == <<tks, last, mergeList, chosen>>
a == 97   b == 98   h == 35   e == 33   sp == 32
\* a merge: left, right (as written in the merge list)
Merge(x, y) == x \o <<sp>> \o y
Plain == <<Merge(<<a>>, <<b>>), Merge(<<b>>, <<a>>), Merge(<<a>>, <<a>>), Merge(<<a, b>>, <<a>>), Merge(<<a>>, <<b, a>>), Merge(<<a, b>>, <<a, b>>), Merge(<<a, a>>, <<b>>)>>
Dressed == <<Merge(<<a>>, <<h, b>>), Merge(<<h, b>>, <<h, a>>), Merge(<<h, a>>, <<h, b, e>>), Merge(<<a, b>>, <<h, a>>), Merge(<<a>>, <<h, a>>), Merge(<<a, b, a>>, <<h, b, e>>)>>
PlainVocab == <<<<a>>, <<b>>, <<a, b>>, <<b, a>>, <<a, a>>, <<a, b, a>>, <<a, b, a, b>>, <<a, a, b>>>>
DressedVocab == <<<<a>>, <<h, b>>, <<h, a>>, <<h, b, e>>, <<h, a, e>>, <<a, b>>, <<h, b, a>>, <<h, a, b, e>>, <<a, b, a>>, <<a, a>>, <<a, b, a, b, e>>, <<63>>>>
Numbered(v) == [i \in 1..Len(v) |-> <<v[i], i - 1>>]
\* options: dressed (prefix #, suffix !, unknown ?), ignore_merges, dropout
Opts == {[dressed |-> d, ign |-> i, drop |-> x] : d \in BOOLEAN, i \in {FALSE}, x \in {0}}
        \cup {[dressed |-> FALSE, ign |-> TRUE, drop |-> 0], [dressed |-> FALSE, ign |-> FALSE, drop |-> 1], [dressed |-> FALSE, ign |-> FALSE, drop |-> 2]}
Depth == IF Deep THEN 4 ELSE 2
Wmax == IF Deep THEN 6 ELSE 5
TheMerges == IF chosen.dressed THEN Dressed ELSE Plain
M == [k |-> "BPE", vocab |-> Numbered(IF chosen.dressed THEN DressedVocab ELSE PlainVocab), merges |-> mergeList, drop |-> chosen.drop,
      unk |-> IF chosen.dressed THEN <<63>> ELSE <<>>, cont |-> IF chosen.dressed THEN <<h>> ELSE <<>>, eow |-> IF chosen.dressed THEN <<e>> ELSE <<>>,
      fuse |-> chosen.dressed, bf |-> FALSE, ign |-> chosen.ign]
Words == SeqsOf({a, b}, 1, IF chosen.drop = 2 THEN 4 ELSE Wmax) \cup (IF chosen.dressed THEN {<<>>, <<b, 120, 120, a>>} ELSE {<<>>})
Cm == Compile(<<M>>)[1]

MCInit == Init /\ mergeList = <<>> /\ chosen \in Opts
MCNext == /\ Len(mergeList) < (IF chosen.drop = 0 /\ ~chosen.ign THEN Depth ELSE 2)
          /\ UNCHANGED <<tks, last, chosen>>
          /\ \E k \in 1..Len(TheMerges) : mergeList' = Append(mergeList, TheMerges[k])
MCSpec == MCInit /\ [][MCNext]_allvars
Cases == Emit(<<EvModel(M, SetToSeq(Words))>>)

Cut1(w) == CutWord(M, Cm.voc, w)
\* no merge applies to the result, which some order of mergeList leads to; its ranges tile the word
Terminal ==
  \A w \in Words : LET s == MergeAll(Cm.tbl, Cut1(w)) IN
    /\ Applicable(Cm.tbl, s) = {} /\ Lowest(Cm.tbl, s) = 0
    /\ LET c == Cut1(w) IN Applicable(Cm.tbl, c) # {} => Lowest(Cm.tbl, c) = Chosen(Cm.tbl, c)
    /\ Len(w) <= 4 => s \in Reachable(Cm.tbl, Cut1(w))
    /\ \A k \in 1..Len(s) : s[k].i = (IF k = 1 THEN 0 ELSE s[k - 1].j) /\ s[k].i < s[k].j
    /\ s # <<>> => s[Len(s)].j = Len(w)
    /\ ~chosen.dressed => \A k \in 1..Len(s) : Cm.rev[s[k].id] = Slice(w, s[k].i, s[k].j)
\* A merge list each of whose mergeList joins single characters or what earlier mergeList make can be
\* applied merge by merge: all occurrences of the first one, left to right, then of the next ...
Made(k) == {PlainVocab[1], PlainVocab[2]} \cup {LET m == mergeList[x] p == FirstSpace(m) IN SubSeq(m, 1, p - 1) \o SubSeq(m, p + 1, Len(m)) : x \in 1..(k - 1)}
Proper == ~chosen.dressed /\ \A k \in 1..Len(mergeList) : LET m == mergeList[k] p == FirstSpace(m) IN SubSeq(m, 1, p - 1) \in Made(k) /\ SubSeq(m, p + 1, Len(m)) \in Made(k)
RECURSIVE Pass(_, _, _, _)
Pass(tbl, r, s, k) ==
  IF k >= Len(s) THEN s
  ELSE IF <<s[k].id, s[k + 1].id>> \in DOMAIN tbl /\ RankAt(tbl, s, k) = r THEN Pass(tbl, r, MergeAt(tbl, s, k), k + 1)
  ELSE Pass(tbl, r, s, k + 1)
ByRank(s) == FoldLeft(LAMBDA x, r : Pass(Cm.tbl, r, x, 1), s, [r \in 1..Len(mergeList) |-> r - 1])
PassByPass == (Proper /\ chosen.drop = 0) => \A w \in Words : ByRank(Cut1(w)) = MergeAll(Cm.tbl, Cut1(w))
=============================================================================
