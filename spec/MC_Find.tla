------------------------------- MODULE MC_Find -------------------------------
(* C04: every short inputText against sets of registered tokens. *)
EXTENDS MCBase
VARIABLES cfgno, inputText
allvars == <<tks, last, cfgno, inputText>>

T(c, sw, ls, rs, nz) == NewTok(c, sw, ls, rs, nz, FALSE)
a == 97   b == 98   sp == 32   us == 95   UA == 65
Lowercase == [k |-> "Bert", clean |-> FALSE, cjk |-> FALSE, strip |-> 0, lower |-> TRUE]
SpaceToG == [k |-> "Replace", p |-> <<32>>, c |-> <<9601>>]
\* registered tokens, normalizer
Sets == <<
  <<<<T(<<a>>, FALSE, FALSE, FALSE, FALSE), T(<<a, b>>, FALSE, FALSE, FALSE, FALSE), T(<<b>>, FALSE, FALSE, FALSE, FALSE)>>, <<>>>>,
  <<<<T(<<a, b>>, TRUE, FALSE, FALSE, FALSE), T(<<a>>, FALSE, FALSE, FALSE, FALSE)>>, <<>>>>,
  <<<<T(<<a, b, a>>, TRUE, FALSE, FALSE, FALSE), T(<<a, b>>, FALSE, TRUE, TRUE, FALSE)>>, <<>>>>,
  <<<<T(<<b, a>>, FALSE, TRUE, FALSE, FALSE), T(<<a, b>>, FALSE, FALSE, TRUE, FALSE)>>, <<>>>>,
  <<<<T(<<a, a>>, TRUE, TRUE, TRUE, FALSE), T(<<a>>, FALSE, FALSE, TRUE, TRUE)>>, <<>>>>,
  <<<<T(<<a, sp, b>>, FALSE, FALSE, FALSE, FALSE), T(<<b>>, FALSE, TRUE, FALSE, TRUE)>>, <<>>>>,
  <<<<T(<<UA>>, FALSE, FALSE, FALSE, TRUE), T(<<a, b>>, FALSE, FALSE, FALSE, FALSE)>>, <<Lowercase>>>>,
  <<<<T(<<UA, b>>, TRUE, TRUE, FALSE, TRUE), T(<<b, UA>>, TRUE, FALSE, TRUE, FALSE)>>, <<Lowercase>>>>,
  <<<<T(<<sp, a>>, FALSE, FALSE, FALSE, TRUE), T(<<b>>, FALSE, TRUE, TRUE, TRUE)>>, <<SpaceToG>>>>,
  <<<<T(<<a>>, TRUE, FALSE, FALSE, TRUE), T(<<a>>, FALSE, FALSE, FALSE, FALSE), T(<<sp>>, FALSE, FALSE, FALSE, TRUE)>>, <<>>>> >>
\* every unclaimed piece shows as one unknown token
Unknown == <<[k |-> "WordPiece", unk |-> <<63>>, cont |-> <<>>, maxc |-> 100, vocab |-> <<<<<<63>>, 0>>>>]>>
Configs == [k \in 1..Len(Sets) |-> [NoCfg EXCEPT !.added = Sets[k][1], !.norm = Sets[k][2], !.model = Unknown]]
Alphabet == {a, b, sp, us, UA}
Bound == IF Deep THEN 6 ELSE 4

MCInit == Init /\ cfgno = 0 /\ inputText = <<>>
Start(k) == cfgno = 0 /\ Construct(Configs[k]) /\ cfgno' = k /\ UNCHANGED inputText
Extend(c) == /\ cfgno > 0 /\ Len(inputText) < Bound /\ UNCHANGED <<tks, last, cfgno>> /\ inputText' = Append(inputText, c)
             /\ Emit(<<EvNew(Configs[cfgno]), EvEnc(1, inputText', FALSE)>>)
MCNext == (\E k \in 1..Len(Configs) : Start(k)) \/ (\E c \in Alphabet : Extend(c))
MCSpec == MCInit /\ [][MCNext]_allvars

Raw == Patterns(tks[1].reg, FALSE)
Cuts0 == Scan(Raw, inputText)
\* the pieces tile the inputText, in order, none of them empty
Tiling ==
  cfgno > 0 => /\ \A k \in 1..Len(Cuts0) : Cuts0[k][1] < Cuts0[k][2] /\ Cuts0[k][1] = (IF k = 1 THEN 0 ELSE Cuts0[k - 1][2])
               /\ (inputText # <<>> => Cuts0 # <<>> /\ Cuts0[Len(Cuts0)][2] = Len(inputText))
\* where a claimed piece's token starts: lstrip whitespace before it aside
CoreStart(x) == LET e == x[3][1] IN CHOOSE i \in x[1]..x[2] : OccursAt(e.p, inputText, i) /\ (\A w \in x[1]..(i - 1) : WhiteSpace(inputText[w + 1])) /\ (i = x[1] \/ e.ls)
                                        /\ (\A w \in (i + Len(e.p))..(x[2] - 1) : WhiteSpace(inputText[w + 1]))
Declared ==
  cfgno > 0 => \A k \in 1..Len(Cuts0) :
    LET x == Cuts0[k] IN
    IF x[3] = <<>>
    THEN \* nothing that could be taken starts in an unclaimed piece
         \A i \in x[1]..(x[2] - 1) : \A e \in ToSet(Raw) : ~Qualifies(e, inputText, i)
    ELSE LET e == x[3][1]  i == CoreStart(x)
         IN /\ Qualifies(e, inputText, i)
            /\ \A d \in ToSet(Raw) : Qualifies(d, inputText, i) => Len(d.p) <= Len(e.p)
            /\ ~e.ls => i = x[1]
            /\ ~e.rs => i + Len(e.p) = x[2]
            \* nothing could have been taken earlier in the whitespace given to the token, and the strips are maximal
            /\ (e.ls /\ x[1] > (IF k = 1 THEN 0 ELSE Cuts0[k - 1][1])) => (k > 1 /\ Cuts0[k - 1][3] # <<>>) \/ ~WhiteSpace(inputText[x[1]])
            /\ (e.rs /\ x[2] < Len(inputText)) => ~WhiteSpace(inputText[x[2] + 1])
\* each claimed piece becomes exactly one token, and the words count all the pieces
OneToken ==
  cfgno > 0 => LET n == EncodeWith(tks[1], inputText, FALSE).v  cl == SelectSeq(Cuts0, LAMBDA x : x[3] # <<>>) IN
               /\ Parallel(n) /\ Denoting(Denotes(tks[1]), n) /\ WordsOrdered(n)
               /\ \A k \in 1..Len(cl) : \E m \in 1..Len(n.ids) : n.ids[m] = cl[k][3][1].id /\ n.offs[m] = <<cl[k][1], cl[k][2]>>
               \* adjacent in the inputText when nothing is normalized away
               /\ \A m \in 2..Len(n.ids) : n.offs[m - 1][2] = n.offs[m][1]
=============================================================================
