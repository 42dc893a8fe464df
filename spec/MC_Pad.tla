------------------------------- MODULE MC_Pad --------------------------------
(* C15: every small size, target, multiple, direction and overflow. *)
EXTENDS MCBase
VARIABLES tokenCount, padding, pieces
allvars == <<tks, last, tokenCount, padding, pieces>>
N == IF Deep THEN 8 ELSE 5
Params == {[dir |-> d, fixed |-> f, id |-> 9, type |-> 3, tok |-> <<91, 80, 93>>, mult |-> m] :
             d \in {"Left", "Right"}, f \in {<<>>} \cup {<<k>> : k \in 0..(N + 1)}, m \in (0..4) \cup (IF Deep THEN {5, 7} ELSE {})}
Overs == SeqsOf(IF Deep THEN 0..4 ELSE {0, 2, 3}, 0, IF Deep THEN 3 ELSE 2)
E == [Letters(tokenCount) EXCEPT !.over = [k \in 1..Len(pieces) |-> Letters(pieces[k])]]
MCInit == Init /\ tokenCount = 0 /\ padding \in Params /\ pieces = <<>>
MCNext == /\ UNCHANGED <<tks, last, padding>>
          /\ \/ tokenCount < N /\ tokenCount' = tokenCount + 1 /\ UNCHANGED pieces
             \/ pieces = <<>> /\ pieces' \in Overs /\ UNCHANGED tokenCount
MCSpec == MCInit /\ [][MCNext]_allvars

\* x, of m tokens, padded to at least t
PaddedTo(x, m, t) ==
  LET k == MaxI(0, t - m)
      at == IF padding.dir = "Left" THEN 1..k ELSE (m + 1)..(m + k)
      kept == IF padding.dir = "Left" THEN (k + 1)..(k + m) ELSE 1..m
  IN /\ Parallel(x) /\ EncLen(x) = m + k
     /\ \A i \in at : x.ids[i] = padding.id /\ x.toks[i] = padding.tok /\ x.types[i] = padding.type /\ x.att[i] = 0 /\ x.spec[i] = 1 /\ x.offs[i] = <<0, 0>>
     /\ \A i \in kept : LET j == IF padding.dir = "Left" THEN i - k ELSE i
                        IN x.ids[i] = j /\ x.toks[i] = <<96 + j>> /\ x.types[i] = 0 /\ x.att[i] = 1 /\ x.spec[i] = 0 /\ x.offs[i] = <<j - 1, j>> /\ x.words[i] = j - 1
Target == \* the least multiple that is at least the length asked for
  LET m == IF padding.fixed = <<>> THEN tokenCount ELSE padding.fixed[1]
  IN IF padding.mult = 0 THEN m ELSE CHOOSE t \in m..(m + padding.mult) : t % padding.mult = 0 /\ \A u \in m..(t - 1) : u % padding.mult # 0
PadLaw ==
  LET r == PadOpt(<<padding>>, E) IN
  /\ Emit(<<[op |-> "pad", cfg |-> padding, e |-> E]>>)
  /\ PaddedTo(r, tokenCount, Target)
  /\ Len(r.over) = Len(pieces) /\ \A k \in 1..Len(pieces) : PaddedTo(r.over[k], pieces[k], Target) /\ r.over[k].over = <<>>
=============================================================================
