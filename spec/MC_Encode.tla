------------------------------ MODULE MC_Encode ------------------------------
(* C01, C02, C13, C14, C15: every combination of small truncations, templates and
   paddings, on texts of every small length. *)
EXTENDS MCBase
VARIABLES setup, textLength
allvars == <<tks, last, setup, textLength>>
N == IF Deep THEN 6 ELSE 4

\* a tokenizer that makes one token of each letter; "c" is an added token, "x" unknown
TheModel == <<[k |-> "WordPiece", unk |-> <<63>>, cont |-> <<>>, maxc |-> 1, vocab |-> <<<<<<97>>, 1>>, <<<<98>>, 2>>, <<<<63>>, 0>>>>]>>
ThePre == <<[k |-> "Split", re |-> Cls(FALSE, <<[t |-> "r", a |-> 97, b |-> 122]>>), beh |-> "Isolated", inv |-> FALSE]>>
TheAdded == <<NewTok(<<99>>, FALSE, FALSE, FALSE, FALSE, TRUE)>>
Letter == <<97, 99, 98, 120, 97, 98, 99, 120>>
TextOf(m) == SubSeq(Letter, 1, m)

Cls1 == [id |-> <<67>>, ids |-> <<7>>, toks |-> <<<<67>>>>]
Sep2 == [id |-> <<83>>, ids |-> <<8, 9>>, toks |-> <<<<83>>, <<84>>>>]
PSp(s, t) == [sp |-> TRUE, id |-> s.id, type |-> t]
PSeq(t) == [sp |-> FALSE, id |-> <<65>>, type |-> t]
Templates ==
  {<<>>} \cup {<<[k |-> "Template", single |-> l, specials |-> <<Cls1, Sep2>>]>> :
     l \in {<<PSeq(1)>>, <<PSp(Cls1, 0), PSeq(1)>>, <<PSp(Cls1, 0), PSeq(0), PSp(Sep2, 2)>>} \cup
           (IF Deep THEN {<<PSeq(0), PSp(Sep2, 0)>>, <<PSp(Sep2, 1), PSp(Cls1, 0), PSeq(1), PSp(Cls1, 1)>>} ELSE {})}
Truncs == {<<>>} \cup {<<[max |-> m, stride |-> s, dir |-> d, strat |-> "LongestFirst"]>> :
                         m \in 0..(IF Deep THEN 5 ELSE 4), s \in 0..(IF Deep THEN 2 ELSE 1), d \in {"Left", "Right"}}
Pads == {<<>>} \cup {<<[dir |-> d, fixed |-> f, id |-> 5, type |-> 4, tok |-> <<80>>, mult |-> m]>> :
                       d \in {"Left", "Right"}, f \in {<<>>, <<3>>} \cup (IF Deep THEN {<<0>>, <<6>>} ELSE {}), m \in {0, 2} \cup (IF Deep THEN {3} ELSE {})}
Configs == {[NoCfg EXCEPT !.model = TheModel, !.pre = ThePre, !.added = TheAdded, !.post = t, !.trunc = tr, !.pad = p] :
              t \in Templates, tr \in Truncs, p \in Pads}

MCInit == Init /\ textLength = 0 /\ setup = NoCfg
Start(c) == tks = <<>> /\ Construct(c) /\ setup' = c /\ textLength' = 0
\* both with and without special tokens, textLength letters
Extend == /\ tks # <<>> /\ textLength <= N /\ textLength' = textLength + 1 /\ UNCHANGED setup
          /\ Encode(1, TextOf(textLength), TRUE)
          /\ Emit(<<EvNew(setup), EvEnc(1, TextOf(textLength), TRUE), EvEnc(1, TextOf(textLength), FALSE)>>)
MCNext == (\E c \in Configs : Start(c)) \/ Extend
MCSpec == MCInit /\ [][MCNext]_allvars

Results == {<<s, EncodeWith(tks[1], TextOf(textLength), s)>> : s \in BOOLEAN}
Coherent ==
  tks # <<>> => \A x \in Results :
    x[2].ok => LET b == x[2].v IN Parallel(b) /\ Denoting(Denotes(tks[1]), b) /\ WordsOrdered(b) /\ Bounded(tks[1], x[1], b) /\ Padded(tks[1], b)
\* the only exception: a stride without room, when truncation is needed
ThrowsOnlyWhen ==
  tks # <<>> => \A x \in Results :
    LET room == IF setup.trunc = <<>> THEN 0 ELSE MaxI(0, setup.trunc[1].max - AddedCount(setup.post, x[1]))
    IN x[2].ok = ~(setup.trunc # <<>> /\ room > 0 /\ textLength > room /\ setup.trunc[1].stride >= room)
\* every token of the text is in some piece, whatever the configuration
NothingLost ==
  tks # <<>> => \A x \in Results :
    x[2].ok => UNION {{p.offs[k][1] : k \in {i \in 1..EncLen(p) : p.spec[i] = 0}} : p \in ToSet(Pieces(x[2].v))} = 0..(textLength - 1)
\* without special tokens asked for, none is added
NoneAdded ==
  tks # <<>> => \A x \in Results :
    (x[2].ok /\ ~x[1]) => \A p \in ToSet(Pieces(x[2].v)) : \A k \in 1..EncLen(p) : p.spec[k] = 1 => p.att[k] = 0
\* the template's tokens are in every piece
TemplateEverywhere ==
  tks # <<>> => \A x \in Results :
    (x[2].ok /\ x[1]) => \A p \in ToSet(Pieces(x[2].v)) :
       Len(SelectSeq([k \in 1..EncLen(p) |-> k], LAMBDA k : p.spec[k] = 1 /\ p.att[k] = 1)) = AddedCount(setup.post, TRUE)
=============================================================================
