------------------------------- MODULE MC_Post -------------------------------
(* C14: every small template, and every small token and offset under trimming. *)
EXTENDS MCBase
VARIABLES mode, processor, encoding
allvars == <<tks, last, mode, processor, encoding>>

S1 == [id |-> <<67>>, ids |-> <<7>>, toks |-> <<<<67>>>>]
S2 == [id |-> <<83>>, ids |-> <<8, 9>>, toks |-> <<<<83>>, <<84>>>>]
PSp(s, t) == [sp |-> TRUE, id |-> s.id, type |-> t]
PSeq(t) == [sp |-> FALSE, id |-> <<65>>, type |-> t]
Sp == {PSp(S1, 0), PSp(S2, 2)} \cup (IF Deep THEN {PSp(S1, 1)} ELSE {})
Templates == {[k |-> "Template", single |-> x \o <<PSeq(t)>> \o y, specials |-> <<S1, S2>>] :
                x \in SeqsOf(Sp, 0, 2), y \in SeqsOf(Sp, 0, IF Deep THEN 2 ELSE 1), t \in 0..1}
\* tokens of the byte-level space and a letter; offsets from a, w wide
G288 == 288
Tok1 == SeqsOf({G288, 97}, 0, IF Deep THEN 4 ELSE 3)
Trims == {[k |-> "ByteLevel", prefix |-> b, trim |-> t] : b \in BOOLEAN, t \in BOOLEAN}
OneTok(t, a, w) == [Letters(2) EXCEPT !.toks = <<<<113>>, t>>, !.offs = <<<<0, 1>>, <<a, a + w>>>>, !.over = <<[Letters(1) EXCEPT !.toks = <<t>>, !.offs = <<<<a, a + w>>>>]>>]
Es == {[Letters(n) EXCEPT !.over = o] : n \in 0..2, o \in {<<>>, <<Letters(1)>>, <<Letters(2), Letters(0)>>}}

MCInit == Init /\ mode = "start" /\ processor = [k |-> "Seq", l |-> <<>>] /\ encoding = Letters(0)
MCNext ==
  /\ UNCHANGED <<tks, last>>
  /\ \/ /\ mode = "start" /\ mode' = "template" /\ processor' \in Templates /\ UNCHANGED encoding
     \/ /\ mode = "start" /\ mode' = "trim" /\ processor' \in Trims /\ UNCHANGED encoding
     \/ /\ mode = "template" /\ mode' = "done" /\ encoding' \in Es
        /\ processor' \in {processor} \cup {[k |-> "Seq", l |-> <<processor, [k |-> "ByteLevel", prefix |-> FALSE, trim |-> TRUE]>>]}
     \/ /\ mode = "trim" /\ mode' = "trimmed" /\ encoding' \in {OneTok(t, a, w) : t \in Tok1, a \in {0, 3}, w \in 0..4} /\ UNCHANGED processor
MCSpec == MCInit /\ [][MCNext]_allvars

Ev(s) == [op |-> "post", cfg |-> processor, e |-> encoding, special |-> s]
Cases == mode \in {"done", "trimmed"} => Emit(<<Ev(TRUE), Ev(FALSE)>>)

Template1 == IF processor.k = "Seq" /\ processor.l # <<>> THEN processor.l[1] ELSE processor
Kept(b) == SelectSeq([k \in 1..EncLen(b) |-> k], LAMBDA k : b.spec[k] = 0)
\* the text's tokens come through, in order, with the type the template says; the specials around them
TemplateLaw(b, r, s) ==
  LET at == Kept(r)
      A == SelectInSeq(Template1.single, LAMBDA x : ~x.sp)
      Count(l) == FoldLeft(LAMBDA acc, x : acc + (IF x.sp /\ s THEN Len(SpecialOf(Template1, x.id).ids) ELSE 0), 0, l)
  IN /\ Parallel(r)
     /\ Len(at) = EncLen(b)
     /\ \A k \in 1..Len(at) : /\ r.ids[at[k]] = b.ids[k] /\ r.toks[at[k]] = b.toks[k] /\ r.offs[at[k]] = b.offs[k] /\ r.words[at[k]] = b.words[k]
                              /\ r.types[at[k]] = Template1.single[A].type /\ at[k] = k + Count(SubSeq(Template1.single, 1, A - 1))
     /\ EncLen(r) = EncLen(b) + Count(Template1.single)
     /\ \A k \in 1..EncLen(r) : r.spec[k] = 1 => r.offs[k] = <<0, 0>> /\ r.att[k] = 1 /\ r.words[k] = -1
     /\ Len(r.over) = Len(b.over)
Templated ==
  mode = "done" => \A s \in BOOLEAN :
     LET r == PostProcess(processor, encoding, s)
     IN TemplateLaw(encoding, r, s) /\ \A k \in 1..Len(encoding.over) : TemplateLaw(encoding.over[k], r.over[k], s)
\* trimming moves the ends inwards by at most the spaces that are there; nothing else changes
Trimmed ==
  mode = "trimmed" =>
     LET r == PostProcess(processor, encoding, TRUE)
         lead == CountLead(encoding.toks[2])  trail == CountTrail(encoding.toks[2])
     IN /\ [r EXCEPT !.offs = encoding.offs, !.over = encoding.over] = encoding
        /\ (~processor.trim \/ (lead = 0 /\ trail = 0)) => r = encoding
        /\ r.offs[2][1] <= r.offs[2][2] /\ r.offs[2][1] >= encoding.offs[2][1] /\ r.offs[2][2] <= encoding.offs[2][2]
        /\ r.offs[2][1] - encoding.offs[2][1] <= lead /\ encoding.offs[2][2] - r.offs[2][2] <= trail
        /\ r.offs[1] = encoding.offs[1]
=============================================================================
