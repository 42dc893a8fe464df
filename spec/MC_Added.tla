------------------------------ MODULE MC_Added -------------------------------
(* C05 (and C04): all short histories of registrations. *)
EXTENDS MCBase
VARIABLE history
allvars == <<tks, last, history>>

A == <<97>>   B == <<98>>   AB == <<97, 98>>   UA == <<65>>   Z == <<122>>
WP(vocab) == <<[k |-> "WordPiece", unk |-> Z, cont |-> <<>>, maxc |-> 9, vocab |-> vocab]>>
Lowercase == [k |-> "Bert", clean |-> FALSE, cjk |-> FALSE, strip |-> 0, lower |-> TRUE]
Configs ==
  {[NoCfg EXCEPT !.model = m, !.norm = n, !.added = a] :
     m \in {<<>>, WP(<<<<A, 0>>, <<B, 4>>, <<Z, 2>>>>)},
     n \in {<<>>, <<Lowercase>>},
     a \in IF Deep THEN {<<>>, <<NewTok(AB, FALSE, FALSE, FALSE, FALSE, TRUE)>>} ELSE {<<>>}}
Contents == {A, AB, UA} \cup (IF Deep THEN {B, <<>>} ELSE {<<>>})
Toks == {[NewTok(c, sw, FALSE, FALSE, nz, sp) EXCEPT !.id = IF sp THEN 3 ELSE 0] :
           c \in Contents, sw \in (IF Deep THEN BOOLEAN ELSE {FALSE}), nz \in BOOLEAN, sp \in BOOLEAN}
Depth == 3
Probe == <<97, 98, 32, 65, 98, 97>>          \* "ab Aba"

MCInit == Init /\ history = <<>>
Start(cfg) == tks = <<>> /\ Construct(cfg) /\ history' = <<EvNew(cfg)>>
Register1(t) ==
  /\ tks # <<>> /\ Len(history) < 1 + 2 * Depth
  /\ AddTokens(1, <<t>>)
  /\ history' = history \o <<EvAdd(1, <<t>>), EvEnc(1, Probe, FALSE)>>
  /\ Len(history') = 1 + 2 * Depth => Emit(history' \o <<EvDec(1, [k \in 1..9 |-> k - 1], FALSE), EvDec(1, [k \in 1..9 |-> k - 1], TRUE)>>)
MCNext == (\E c \in Configs : Start(c)) \/ (\E t \in Toks : Register1(t))
MCSpec == MCInit /\ [][MCNext]_allvars

Reg == tks[1].reg
Voc == tks[1].cm[1].voc
NoCollision ==
  tks # <<>> =>
    /\ \A x, y \in 1..Len(Reg.toks) : x # y => Reg.toks[x].id # Reg.toks[y].id /\ Reg.toks[x].content # Reg.toks[y].content
    /\ tks[1].cm # <<>> => \A e \in ToSet(Reg.toks), v \in DOMAIN Voc : (Voc[v] = e.id) = (v = e.content)
Decodable ==
  tks # <<>> => \A e \in ToSet(Reg.toks) :
     /\ DecodeWith(tks[1], <<e.id>>, FALSE).v = Utf8(e.content)
     /\ DecodeWith(tks[1], <<e.id>>, TRUE).v = IF e.content \in Reg.special THEN <<>> ELSE Utf8(e.content)
Recognised ==
  tks # <<>> => \A e \in ToSet(Reg.toks) : ~e.nz =>
     LET r == EncodeWith(tks[1], e.content, FALSE).v IN r.ids = <<e.id>> /\ r.toks = <<e.content>>
\* an id, once given, stays; specials stay special; flags are those of the latest registration
Stable ==
  [][tks # <<>> =>
       /\ \A e \in ToSet(tks[1].reg.toks) : \E d \in ToSet(tks'[1].reg.toks) : d.content = e.content /\ d.id = e.id
       /\ tks[1].reg.special \subseteq tks'[1].reg.special
       /\ \A d \in ToSet(tks'[1].reg.toks) :
            (\A e \in ToSet(tks[1].reg.toks) : e.content # d.content)
              => \/ tks[1].cm # <<>> /\ d.content \in DOMAIN Voc /\ d.id = Voc[d.content]
                 \/ \A i \in VocIds(tks[1].cm) \cup RegIds(tks[1].reg) : d.id > i]_tks
=============================================================================
