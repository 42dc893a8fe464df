----------------------------- MODULE MC_BpeQueue -----------------------------
(***************************************************************************)
(* C12: the queue algorithm refines the merge relation.  Symbols are       *)
(* linked; a queue holds candidate merges <<rank, position, pair>>, is     *)
(* popped lowest rank, leftmost first, and may hold entries that no longer *)
(* apply: one is applied only while the very pair it was made for is there.*)
(* For all small merge tables, even ones no vocabulary could give, the     *)
(* result is the one that applying the applicable merge of lowest rank,    *)
(* leftmost first, gives.                                                  *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES mergeList, theWord, symbols, queue, phase
allvars == <<tks, last, mergeList, theWord, symbols, queue, phase>>

Id == 1..3
Entries == Id \X Id \X Id
\* tables worth a look although they are long: an entry made stale and a pair that gives the same symbol
Special == << <<<<2, 3, 2>>, <<1, 2, 1>>, <<3, 1, 3>>, <<1, 3, 1>>>>,
              <<<<2, 3, 2>>, <<1, 2, 4>>, <<5, 6, 5>>, <<4, 5, 4>>>>,
              <<<<1, 1, 1>>, <<1, 2, 1>>, <<2, 2, 2>>, <<2, 1, 1>>>> >>
SpecialWords == SeqsOf(1..3, 5, 5) \cup {<<1, 2, 3, 3, 5, 6>>, <<1, 2, 3, 5, 6>>, <<1, 2, 3, 3, 3, 5>>}
Depth == IF Deep THEN 3 ELSE 2
Tbl == LET keys == {<<mergeList[k][1], mergeList[k][2]>> : k \in 1..Len(mergeList)}
       IN [q \in keys |-> LET k == CHOOSE k \in 1..Len(mergeList) : <<mergeList[k][1], mergeList[k][2]>> = q /\ \A x \in 1..(k - 1) : <<mergeList[x][1], mergeList[x][2]>> # q
                          IN <<k - 1, mergeList[k][3]>>]

At(k) == symbols[k]
EntryFor(s, k) == \* the candidate at position k, if any
  IF k = 0 \/ s[k].next = 0 THEN {}
  ELSE LET q == <<s[k].c, s[s[k].next].c>> IN IF q \in DOMAIN Tbl THEN {<<Tbl[q][1], k, q>>} ELSE {}
Put(q, es) == [x \in (DOMAIN q \cup es) |-> (IF x \in DOMAIN q THEN q[x] ELSE 0) + (IF x \in es THEN 1 ELSE 0)]
Take(q, x) == IF q[x] = 1 THEN [y \in (DOMAIN q \ {x}) |-> q[y]] ELSE [q EXCEPT ![x] = @ - 1]
NoQueue == [x \in {} |-> 0]

MCInit == Init /\ mergeList = <<>> /\ theWord = <<>> /\ symbols = <<>> /\ queue = NoQueue /\ phase = "table"
Choose1 == /\ phase = "table" /\ Len(mergeList) < Depth
           /\ \E en \in Entries : mergeList' = Append(mergeList, en)
           /\ UNCHANGED <<tks, last, theWord, symbols, queue, phase>>
ChooseSpecial == /\ phase = "table" /\ mergeList = <<>> /\ \E k \in 1..Len(Special) : mergeList' = Special[k] 
                 /\ phase' = "special" /\ UNCHANGED <<tks, last, theWord, symbols, queue>>
Begin == /\ phase \in {"table", "special"} /\ (phase = "table" => Len(mergeList) = Depth) 
         /\ \E w \in (IF phase = "special" THEN SpecialWords ELSE SeqsOf(Id, IF Deep THEN 3 ELSE 4, 4)) :
              /\ theWord' = w
              /\ symbols' = [k \in 1..Len(w) |-> [c |-> w[k], prev |-> k - 1, next |-> IF k = Len(w) THEN 0 ELSE k + 1, i |-> k - 1, j |-> k, on |-> TRUE]]
              /\ queue' = Put(NoQueue, UNION {EntryFor(symbols', k) : k \in 1..Len(w)})
         /\ phase' = "run" /\ UNCHANGED <<tks, last, mergeList>>
Top == CHOOSE x \in DOMAIN queue : \A y \in DOMAIN queue : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Valid(x) == LET s == symbols[x[2]] IN s.on /\ s.next # 0 /\ <<s.c, symbols[s.next].c>> = x[3]
Pop ==
  /\ phase = "run" /\ DOMAIN queue # {}
  /\ UNCHANGED <<tks, last, mergeList, theWord, phase>>
  /\ LET x == Top  k == x[2]  n == symbols[k].next
     IN IF ~Valid(x) THEN queue' = Take(queue, x) /\ symbols' = symbols
        ELSE /\ symbols' = LET s1 == [symbols EXCEPT ![k].c = Tbl[x[3]][2], ![k].j = symbols[n].j, ![k].next = symbols[n].next, ![n].on = FALSE]
                       IN IF symbols[n].next = 0 THEN s1 ELSE [s1 EXCEPT ![symbols[n].next].prev = k]
             /\ queue' = Put(Put(Take(queue, x), EntryFor(symbols', symbols'[k].prev)), EntryFor(symbols', k))
Finish == phase = "run" /\ DOMAIN queue = {} /\ phase' = "done" /\ UNCHANGED <<tks, last, mergeList, theWord, symbols, queue>>
MCNext == Choose1 \/ ChooseSpecial \/ Begin \/ Pop \/ Finish
MCSpec == MCInit /\ [][MCNext]_allvars

Living == SelectSeq(symbols, LAMBDA s : s.on)
Symbols == [k \in 1..Len(Living) |-> [id |-> Living[k].c, i |-> Living[k].i, j |-> Living[k].j]]
Start0 == [k \in 1..Len(theWord) |-> [id |-> theWord[k], i |-> k - 1, j |-> k]]
\* the mergeList stays linked and tiles the theWord; every applicable merge is in the queue
Linked ==
  phase = "run" =>
    /\ \A k \in 1..Len(Living) : Living[k].i = (IF k = 1 THEN 0 ELSE Living[k - 1].j)
    /\ \A k \in 1..Len(symbols) : symbols[k].on => (symbols[k].next # 0 => symbols[symbols[k].next].on /\ symbols[symbols[k].next].prev = k)
    /\ \A k \in 1..Len(symbols) : symbols[k].on => EntryFor(symbols, k) \subseteq DOMAIN queue
Refines == phase = "done" => Symbols = MergeAll(Tbl, Start0)
\* every pop removes a symbol or shrinks the queue
QueueSize(q) == FoldSet(LAMBDA x, acc : acc + q[x], 0, DOMAIN q)
Progress == [][phase = "run" /\ phase' = "run" => \/ Len(SelectSeq(symbols', LAMBDA s : s.on)) < Len(Living) \/ QueueSize(queue') < QueueSize(queue)]_allvars
=============================================================================
