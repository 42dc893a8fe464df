---------------------------- MODULE MC_WordPiece -----------------------------
(* C11: every vocabulary out of a small universe, every short word. *)
EXTENDS MCBase
VARIABLES theModel, theWord
allvars == <<tks, last, theModel, theWord>>
Universe == LET a == 97 b == 98 h == 35 IN
  <<<<a>>, <<b>>, <<a, b>>, <<h, a>>, <<h, b>>, <<h, a, b>>, <<h, b, a>>, <<h>>>> \o (IF Deep THEN <<<<b, a, a>>, <<h, a, a>>>> ELSE <<>>)
Wmax == IF Deep THEN 5 ELSE 4
Models0 == {[k |-> "WordPiece", unk |-> u, cont |-> c, maxc |-> x,
             vocab |-> LET s == SelectSeq([i \in 1..Len(Universe) |-> i], LAMBDA i : i \in S) IN [i \in 1..Len(s) |-> <<Universe[s[i]], s[i]>>]] :
              S \in SUBSET (1..Len(Universe)), u \in {<<63>>} \cup (IF Deep THEN {<<97>>} ELSE {}), c \in {<<35>>, <<>>}, x \in {Wmax - 1, 9}}
Words == SeqsOf({97, 98}, 1, Wmax) \cup {<<>>}
Cm == Compile(<<theModel>>)[1]
R(x) == TokenizeWord(Cm, x)

MCInit == Init /\ theModel = <<>> /\ theWord = <<>>
MCNext == /\ theModel = <<>> /\ UNCHANGED <<tks, last, theWord>> /\ theModel' \in Models0
          /\ Emit(<<EvModel(theModel', SetToSeq(Words))>>)
MCSpec == MCInit /\ [][MCNext]_allvars

InVoc(x) == x \in DOMAIN Cm.voc
\* the declarative reading: t is THE segmentation of x into locally longest entries
Segments(t, x) ==
  /\ t # <<>> \/ x = <<>>
  /\ \A k \in 1..Len(t) :
       /\ t[k].i = (IF k = 1 THEN 0 ELSE t[k - 1].j) /\ t[k].i < t[k].j
       /\ t[k].v = Candidate(theModel, x, t[k].i, t[k].j) /\ InVoc(t[k].v) /\ t[k].id = Cm.voc[t[k].v]
       /\ \A j \in (t[k].j + 1)..Len(x) : ~InVoc(Candidate(theModel, x, t[k].i, j))
  /\ t # <<>> => t[Len(t)].j = Len(x)
\* the positions a run of longest matches reaches, and where it is stuck
RECURSIVE Stuck(_, _)
Stuck(x, i) ==
  IF i = Len(x) THEN FALSE
  ELSE LET js == {j \in (i + 1)..Len(x) : InVoc(Candidate(theModel, x, i, j))}
       IN IF js = {} THEN TRUE ELSE Stuck(x, CHOOSE j \in js : \A y \in js : y <= j)
Longest ==
  theModel # <<>> => \A x \in Words :
    IF Len(x) > theModel.maxc \/ Stuck(x, 0) THEN Len(R(x)) = 1 /\ R(x)[1].v = theModel.unk /\ R(x)[1].i = 0 /\ R(x)[1].j = Len(x)
    ELSE Segments(R(x), x)
=============================================================================
