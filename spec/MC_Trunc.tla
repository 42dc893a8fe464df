------------------------------ MODULE MC_Trunc -------------------------------
(* C13: every length, limit, stride and direction up to a bound. *)
EXTENDS MCBase
VARIABLES tokenCount, truncation
allvars == <<tks, last, tokenCount, truncation>>
N == IF Deep THEN 14 ELSE 9
Params == {[max |-> m, stride |-> s, dir |-> d, strat |-> st] : m \in 0..(IF Deep THEN 9 ELSE 6), s \in 0..(IF Deep THEN 9 ELSE 6), d \in {"Left", "Right"}, st \in {"LongestFirst", "OnlyFirst", "OnlySecond"}}
Ev == [op |-> "trunc", cfg |-> truncation, e |-> Letters(tokenCount)]
MCInit == Init /\ tokenCount = 0 /\ truncation \in {p \in Params : p.strat = "OnlySecond" => p.max > 0}
MCNext == tokenCount < N /\ tokenCount' = tokenCount + 1 /\ UNCHANGED <<tks, last, truncation>>
MCSpec == MCInit /\ [][MCNext]_allvars
Result == TruncateTo(truncation, truncation.max, Letters(tokenCount))
Ids(p) == p.ids
Shared(x, y) == \* what the consecutive pieces x, y share
  IF truncation.dir = "Right" THEN SelectSeq(x.ids, LAMBDA i : i \in ToSet(y.ids)) ELSE SelectSeq(y.ids, LAMBDA i : i \in ToSet(x.ids))
Windowed ==
  LET e == Letters(tokenCount)  ps == Pieces(Result[1]) IN
  /\ Emit(<<Ev>>)
  /\ CASE truncation.max = 0 -> Result[1].ids = <<>> /\ (tokenCount > 0 => Result[1].over = <<e>>)
       [] tokenCount <= truncation.max \/ truncation.strat = "OnlySecond" -> Result = <<e>>
       [] truncation.stride >= truncation.max -> Result = <<>>
       [] OTHER ->
            /\ \A p \in ToSet(ps) : EncLen(p) <= truncation.max /\ EncLen(p) > 0
            /\ \A k \in 1..(Len(ps) - 1) : EncLen(ps[k]) = truncation.max
            /\ EncLen(ps[1]) <= truncation.max /\ Parallel(Result[1])
            \* consecutive tokens of the text
            /\ \A p \in ToSet(ps) : \A k \in 2..EncLen(p) : p.ids[k] = p.ids[k - 1] + 1
            /\ IF truncation.dir = "Right" THEN ps[1].ids[1] = 1 ELSE ps[1].ids[truncation.max] = tokenCount
            \* each shares exactly stride tokens with the one before it
            /\ \A k \in 2..Len(ps) : Len(Shared(ps[k - 1], ps[k])) = truncation.stride
            \* none is lost
            /\ UNION {ToSet(p.ids) : p \in ToSet(ps)} = 1..tokenCount
            \* no piece is superfluous
            /\ \A k \in 1..Len(ps) : ~(ToSet(ps[k].ids) \subseteq UNION {ToSet(ps[x].ids) : x \in (1..Len(ps)) \ {k}}) \/ truncation.stride * 2 >= truncation.max
=============================================================================
