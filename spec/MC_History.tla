----------------------------- MODULE MC_History ------------------------------
(* C18 (and C12, C19): every short sequence of calls on two tokenizers that disagree about
   the same words.  What a call returns depends on its tokenizer's configuration and
   registrations only: whatever was called before, on whichever tokenizer. *)
EXTENDS MCBase
VARIABLES history, seen
allvars == <<tks, last, history, seen>>
a == 97   b == 98   sp == 32
Bpe1(merges, ids) == <<[k |-> "BPE", vocab |-> <<<<<<a>>, ids[1]>>, <<<<b>>, ids[2]>>, <<<<a, b>>, ids[3]>>, <<<<b, a>>, ids[4]>>, <<<<a, b, a>>, ids[5]>>>>,
                        merges |-> merges, drop |-> 0, unk |-> <<>>, cont |-> <<>>, eow |-> <<>>, fuse |-> FALSE, bf |-> FALSE, ign |-> FALSE]>>
Cfg1 == [NoCfg EXCEPT !.model = Bpe1(<<<<a, sp, b>>, <<a, b, sp, a>>>>, <<0, 1, 2, 3, 4>>), !.pre = <<[k |-> "Bert"]>>]
Cfg2 == [NoCfg EXCEPT !.model = Bpe1(<<<<b, sp, a>>, <<a, sp, b>>>>, <<9, 8, 7, 6, 5>>), !.norm = <<[k |-> "Bert", clean |-> TRUE, cjk |-> FALSE, strip |-> 0, lower |-> TRUE]>>]
W1 == <<a, b, a>>   W2 == <<a, b, a, b, sp, a, b, a>>   W3 == <<a, b>>
Calls ==
  {EvEnc(k, w, FALSE) : k \in 1..2, w \in {W1, W2} \cup (IF Deep THEN {W3} ELSE {})}
  \cup {EvAdd(k, <<NewTok(W1, FALSE, FALSE, FALSE, FALSE, TRUE)>>) : k \in (IF Deep THEN 1..2 ELSE {1})}
  \cup {EvDec(1, <<2, 4, 5, 7>>, s) : s \in {TRUE}}
Depth == IF Deep THEN 5 ELSE 4
MCInit == Init /\ history = <<>> /\ seen = {}
Start == /\ Len(tks) < 2 /\ Construct(IF Len(tks) = 0 THEN Cfg1 ELSE Cfg2) /\ history' = Append(history, EvNew(IF Len(tks) = 0 THEN Cfg1 ELSE Cfg2)) /\ UNCHANGED seen
Do(c) ==
  /\ Len(tks) = 2 /\ Len(history) < 2 + Depth
  /\ CASE c.op = "enc" -> Encode(c.k, c.text, c.special)
       [] c.op = "dec" -> Decode(c.k, c.ids, c.skip)
       [] c.op = "add" -> AddTokens(c.k, c.toks)
  /\ history' = Append(history, c)
  /\ seen' = IF c.op = "add" THEN seen ELSE seen \cup {<<c, tks[c.k].reg, last'>>}
  /\ Len(history') = 2 + Depth => Emit(history')
MCNext == Start \/ \E c \in Calls : Do(c)
MCSpec == MCInit /\ [][MCNext]_allvars
Functional == \A x, y \in seen : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
\* a call on one tokenizer leaves the other alone; encode and decode leave both
Frame == [][Len(tks) = 2 => LET c == history'[Len(history')] IN (c.op # "add" => tks' = tks) /\ tks'[3 - c.k] = tks[3 - c.k] /\ tks'[c.k].cm = tks[c.k].cm]_allvars
=============================================================================
