------------------------------ MODULE MC_Cache -------------------------------
(***************************************************************************)
(* C19: the word cache of BPE under concurrent encodes.  Each thread, for  *)
(* each word of its program: takes the lock, looks the word up, releases   *)
(* it; when it was not there, computes the word's tokens without the lock, *)
(* takes the lock, inserts them (in two steps: an insertion is not atomic) *)
(* and releases it.  Whatever the schedule, nobody looks at a table that   *)
(* is being changed, every call returns, and what it returns is what a     *)
(* sequential encode returns: the concurrent system refines Tokenizer,     *)
(* whose encode has no cache at all.                                       *)
(* The thread programs are replayed on the implementation under            *)
(* ThreadSanitizer.                                                        *)
(***************************************************************************)
EXTENDS MCBase
VARIABLES prog, pc, todo, got, lock, cache, changing, res
allvars == <<tks, last, prog, pc, todo, got, lock, cache, changing, res>>
a == 97   b == 98   sp == 32
Voc1 == <<<<<<a>>, 0>>, <<<<b>>, 1>>, <<<<a, b>>, 2>>, <<<<b, a>>, 3>>, <<<<a, b, a>>, 4>>>>
Cfg == [NoCfg EXCEPT !.model = <<[k |-> "BPE", vocab |-> Voc1, merges |-> <<<<a, sp, b>>, <<a, b, sp, a>>>>, drop |-> 0, unk |-> <<>>, cont |-> <<>>, eow |-> <<>>, fuse |-> FALSE, bf |-> FALSE, ign |-> FALSE]>>]
Words == {<<a, b, a>>, <<a, b, b>>}
Threads == 1..(IF Deep THEN 3 ELSE 2)
Progs == [Threads -> SeqsOf(Words, 2, 2)]
Cm == Compile(Cfg.model)
F(w) == TokenizeWord(Cm[1], w)
None == <<>>

MCInit == /\ Init /\ prog \in Progs
          /\ pc = [t \in Threads |-> "idle"] /\ todo = prog /\ got = [t \in Threads |-> None]
          /\ lock = 0 /\ cache = [w \in {} |-> None] /\ changing = FALSE /\ res = [t \in Threads |-> <<>>]
          /\ Emit(<<EvNew(Cfg), [op |-> "par", threads |-> [t \in Threads |-> [k \in 1..Len(prog[t]) |-> EvEnc(1, prog[t][k], FALSE)]], rounds |-> 2]>>)
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Same == UNCHANGED <<tks, last, prog>>
LockFind(t) == pc[t] = "idle" /\ todo[t] # <<>> /\ lock = 0 /\ lock' = t /\ Goto(t, "find") /\ Same /\ UNCHANGED <<todo, got, cache, changing, res>>
Find(t) == /\ pc[t] = "find" /\ Same /\ lock' = 0
           /\ LET w == Head(todo[t]) IN
              IF w \in DOMAIN cache THEN got' = [got EXCEPT ![t] = cache[w]] /\ Goto(t, "return") ELSE UNCHANGED got /\ Goto(t, "compute")
           /\ UNCHANGED <<todo, cache, changing, res>>
Compute(t) == pc[t] = "compute" /\ got' = [got EXCEPT ![t] = F(Head(todo[t]))] /\ Goto(t, "want") /\ Same /\ UNCHANGED <<todo, lock, cache, changing, res>>
LockInsert(t) == pc[t] = "want" /\ lock = 0 /\ lock' = t /\ Goto(t, "insert") /\ Same /\ UNCHANGED <<todo, got, cache, changing, res>>
Insert(t) == pc[t] = "insert" /\ changing' = TRUE /\ Goto(t, "inserted") /\ Same /\ UNCHANGED <<todo, got, lock, cache, res>>
\* another thread may have inserted the word meanwhile: the first one stays
Inserted(t) == /\ pc[t] = "inserted" /\ changing' = FALSE /\ lock' = 0 /\ Goto(t, "return") /\ Same
               /\ LET w == Head(todo[t]) IN cache' = [x \in DOMAIN cache \cup {w} |-> IF x \in DOMAIN cache THEN cache[x] ELSE got[t]]
               /\ UNCHANGED <<todo, got, res>>
Return(t) == /\ pc[t] = "return" /\ Goto(t, "idle") /\ Same
             /\ res' = [res EXCEPT ![t] = Append(@, got[t])] /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ got' = [got EXCEPT ![t] = None]
             /\ UNCHANGED <<lock, cache, changing>>
Step(t) == LockFind(t) \/ Find(t) \/ Compute(t) \/ LockInsert(t) \/ Insert(t) \/ Inserted(t) \/ Return(t)
MCNext == \E t \in Threads : Step(t)
MCSpec == MCInit /\ [][MCNext]_allvars /\ \A t \in Threads : WF_allvars(Step(t))

InCache == {"find", "insert", "inserted"}
Exclusive == \A t, u \in Threads : t # u => ~(pc[t] \in InCache /\ pc[u] \in InCache)
NoTornRead == \A t \in Threads : pc[t] = "find" => ~changing
CacheRight == \A w \in DOMAIN cache : cache[w] = F(w)
ResultsRight == \A t \in Threads : \A k \in 1..Len(res[t]) : res[t][k] = F(prog[t][k])
Returns == <>(\A t \in Threads : todo[t] = <<>> /\ pc[t] = "idle")
=============================================================================
