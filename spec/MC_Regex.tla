------------------------------ MODULE MC_Regex --------------------------------
(* C09: every small regular expression on every short text.  The ends of the   *)
(* matches are compared with a plain definition by backtracking: all ways to   *)
(* match, one by one, in the order in which they are tried.                    *)
EXTENDS MCBase
VARIABLES regex, done
allvars == <<tks, last, regex, done>>
a == 97   b == 98
Single(neg, s) == [k |-> "cls", neg |-> neg, items |-> [k \in 1..Len(s) |-> [t |-> "r", a |-> s[k], b |-> s[k]]]]
Base == {Single(FALSE, <<a>>), Single(FALSE, <<a, b>>), Lit(<<a, b>>)} \cup (IF Deep THEN {Single(TRUE, <<b>>), Lit(<<b>>)} ELSE {})
Bounds == {<<0, 1>>, <<0, -1>>, <<1, -1>>} \cup (IF Deep THEN {<<1, 2>>, <<2, 2>>, <<2, -1>>} ELSE {})
Modes == {"greedy", "lazy", "poss"}
Reps(S) == {[k |-> "rep", e |-> x, min |-> n[1], max |-> n[2], mode |-> m] : x \in S, n \in Bounds, m \in Modes}
Of(k, S, T) == {[k |-> k, l |-> <<x, y>>] : x \in S, y \in T}
Looks == {[k |-> k, e |-> x] : k \in {"la", "nla"}, x \in Base} \cup {[k |-> "bot"], [k |-> "eot"]}
One == Base \cup Reps(Base) \cup Looks
Trees == One \cup {[k |-> "empty"]} \cup Of("seq", One, One) \cup Of("alt", One, One) \cup Reps(Of("seq", Base, Base) \cup Of("alt", Base, Base))
         \cup {[k |-> "seq", l |-> <<x, [k |-> y, e |-> z]>>] : x \in Base, y \in {"la", "nla"}, z \in Reps(Base)}
Texts == SeqsOf({a, b}, 0, IF Deep THEN 5 ELSE 4)
\* long enough for matches to follow one another
Longer == <<<<b, a, a, b, a, b, b, a, b, a>>, <<a, a, a, b, b, b, a, b, a, a>>>>
Behs == <<"Isolated", "MergedWithNext", "MergedWithPrevious", "Contiguous", "Removed">>

MCInit == Init /\ done = FALSE /\ regex \in Trees
MCNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<tks, last, regex>>
          /\ Emit([x \in 1..Len(Behs) |-> EvPre([k |-> "Split", re |-> regex, beh |-> Behs[x], inv |-> x = 3], Longer[IF x > 3 THEN 1 ELSE 2])])
MCSpec == MCInit /\ [][MCNext]_allvars

-----------------------------------------------------------------------------
\* every way to match, by where it ends, in the order in which they are tried
RECURSIVE Ways(_, _, _)
RECURSIVE RepWays(_, _, _, _)
RepWays(e, t, n, i) ==
  LET on == IF e.max >= 0 /\ n >= e.max THEN <<>> ELSE LET js == Ways(e.e, t, i) IN Flatten([k \in 1..Len(js) |-> RepWays(e, t, n + 1, js[k])])
      stop == IF n >= e.min THEN <<i>> ELSE <<>>
  IN IF e.mode = "lazy" THEN stop \o on ELSE on \o stop
Ways(e, t, i) ==
  CASE e.k = "seq" -> LET is == Ways(e.l[1], t, i) IN Flatten([k \in 1..Len(is) |-> Ways(e.l[2], t, is[k])])
    [] e.k = "alt" -> Ways(e.l[1], t, i) \o Ways(e.l[2], t, i)
    [] e.k = "rep" -> LET r == RepWays(e, t, 0, i) IN IF e.mode = "poss" /\ r # <<>> THEN <<r[1]>> ELSE r
    [] e.k \in {"la", "nla"} -> IF (Ways(e.e, t, i) # <<>>) = (e.k = "la") THEN <<i>> ELSE <<>>
    [] OTHER -> Ends(e, t, i)
FirstOfEach(q) == SelectSeq([k \in 1..Len(q) |-> <<q[k], k>>], LAMBDA x : \A y \in 1..(x[2] - 1) : q[y] # x[1])
Backtracking == done => \A t \in Texts : \A i \in 0..Len(t) :
  LET w == FirstOfEach(Ways(regex, t, i)) IN Ends(regex, t, i) = [k \in 1..Len(w) |-> w[k][1]]

\* the two ways to evaluate the repetition of a class; a lazy one is tried the other way round
Runs == (done /\ regex.k = "rep") => (regex.e.k = "cls" => \A t \in Texts : \A i \in 0..Len(t) :
  LET r == RunEnds(regex, t, i) IN
  /\ r = RepEnds(regex, t, <<<<0, i>>>>, {}, <<>>)
  /\ RunEnds([regex EXCEPT !.mode = IF @ = "lazy" THEN "greedy" ELSE "lazy"], t, i) = Reverse(r))

\* the matches follow one another, each the first one found from where the search goes on
RECURSIVE Search1(_, _, _)
Search1(e, t, p) ==
  IF p > Len(t) THEN <<>>
  ELSE LET w == Ways(e, t, p) IN IF w = <<>> THEN Search1(e, t, p + 1) ELSE <<<<p, w[1]>>>> \o Search1(e, t, IF w[1] = p THEN p + 1 ELSE w[1])
Following == done => \A t \in Texts : Matches(regex, t, 0) = Search1(regex, t, 0)
=============================================================================
