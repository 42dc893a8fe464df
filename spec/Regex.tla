-------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* Regular expressions as syntax trees, matched with the leftmost,         *)
(* prioritized (backtracking) semantics of ICU.                            *)
(*   [k |-> "lit", s, ci]       a literal, case-insensitive when ci        *)
(*   [k |-> "cls", neg, items]  one character of (outside) a class         *)
(*   [k |-> "seq", l], [k |-> "alt", l], [k |-> "empty"]                   *)
(*   [k |-> "rep", e, min, max, mode]  max = -1: unbounded                 *)
(*                                     mode "greedy", "lazy", "poss"       *)
(*   [k |-> "la", e], [k |-> "nla", e] (negative) lookahead                *)
(*   [k |-> "bot"], [k |-> "eot"]      start, end of text                  *)
(***************************************************************************)
EXTENDS Unicode

MajorClass(g, c) ==
  CASE g = "L" -> IsLetter(c)
    [] g = "N" -> IsNumber(c)
    [] g = "M" -> IsMark(c)
    [] g = "P" -> IsPunct(c)
    [] g = "Z" -> Gc(c) \in {"Zs", "Zl", "Zp"}
    [] g = "S" -> Gc(c) \in {"Sm", "Sc", "Sk", "So"}
    [] OTHER -> Gc(c) = g

\* is c in the class item it?
InItem(it, c) ==
  CASE it.t = "r" -> c >= it.a /\ c <= it.b
    [] it.t = "g" -> MajorClass(it.g, c)
    [] it.t = "s" -> WhiteSpace(c)
    [] it.t = "S" -> ~WhiteSpace(c)
    [] it.t = "d" -> Gc(c) = "Nd"
InClass(e, c) == (\E i \in 1..Len(e.items) : InItem(e.items[i], c)) # e.neg

\* case-insensitive equality of c with the lowercase ASCII letter (or caseless) x
SameLetter(ci, x, c) ==
  c = x \/ (ci /\ x < 128 /\ (Lower(c) = x \/ (x = 115 /\ c = 383)))

\* Ends(e, t, i): the 0-based positions where a match of e that starts at i may
\* end, in order of preference.  A position met again is left out: what comes
\* after it has been tried already.
Distinct(q) ==
  IF Cardinality(ToSet(q)) = Len(q) THEN q
  ELSE FoldLeft(LAMBDA out, x : IF x \in ToSet(out) THEN out ELSE Append(out, x), <<>>, q)
RECURSIVE Ends(_, _, _)
RECURSIVE RepEnds(_, _, _, _, _)
RECURSIVE SeqEnds(_, _, _, _)
\* the parts of l from the k-th on, started at each of the positions is
SeqEnds(l, k, t, is) ==
  IF k > Len(l) \/ is = <<>> THEN is
  ELSE SeqEnds(l, k + 1, t, Distinct(Flatten([x \in 1..Len(is) |-> Ends(l[k], t, is[x])])))

\* todo: what is left to try, most preferred first: <<n, i>>, n repetitions having
\* reached i, or <<-1, i>>, stopping at i.  An unbounded repetition need not be
\* counted beyond its minimum.
RepEnds(e, t, todo, seen, out) ==
  IF todo = <<>> THEN out
  ELSE LET x == Head(todo) n == x[1] i == x[2] rest == Tail(todo)
       IN IF n < 0 THEN RepEnds(e, t, rest, seen, IF i \in ToSet(out) THEN out ELSE Append(out, i))
          ELSE IF x \in seen THEN RepEnds(e, t, rest, seen, out)
          ELSE LET js == IF e.max >= 0 /\ n >= e.max THEN <<>> ELSE SelectSeq(Ends(e.e, t, i), LAMBDA j : j > i)
                   m == IF e.max < 0 /\ n >= e.min THEN n ELSE n + 1
                   more == [k \in 1..Len(js) |-> <<m, js[k]>>]
                   stop == IF n >= e.min THEN <<<<-1, i>>>> ELSE <<>>
               IN RepEnds(e, t, (IF e.mode = "lazy" THEN stop \o more ELSE more \o stop) \o rest, seen \cup {x}, out)

\* the same for the repetition of a class, without trying its ends one by one
RunEnds(e, t, i) ==
  LET n == Len(t)
      last == IF e.max < 0 THEN n ELSE MinI(n, i + e.max)
      m == FirstIn(i, last, LAMBDA j : ~InClass(e.e, t[j + 1]))
  IN [k \in 1..MaxI(0, m - i - e.min + 1) |-> IF e.mode = "lazy" THEN i + e.min + k - 1 ELSE m - k + 1]

Ends(e, t, i) ==
  CASE e.k = "lit" ->
         IF i + Len(e.s) <= Len(t) /\ \A k \in 1..Len(e.s) : SameLetter(e.ci, e.s[k], t[i + k])
         THEN <<i + Len(e.s)>> ELSE <<>>
    [] e.k = "cls" -> IF i < Len(t) /\ InClass(e, t[i + 1]) THEN <<i + 1>> ELSE <<>>
    [] e.k = "seq" -> SeqEnds(e.l, 1, t, <<i>>)
    [] e.k = "alt" -> Distinct(Flatten([x \in 1..Len(e.l) |-> Ends(e.l[x], t, i)]))
    [] e.k = "rep" -> LET r == IF e.e.k = "cls" /\ i <= Len(t) THEN RunEnds(e, t, i) ELSE RepEnds(e, t, <<<<0, i>>>>, {}, <<>>)
                      IN IF e.mode = "poss" /\ r # <<>> THEN <<r[1]>> ELSE r
    [] e.k = "la" -> IF Ends(e.e, t, i) # <<>> THEN <<i>> ELSE <<>>
    [] e.k = "nla" -> IF Ends(e.e, t, i) = <<>> THEN <<i>> ELSE <<>>
    [] e.k = "bot" -> IF i = 0 THEN <<i>> ELSE <<>>
    [] e.k = "eot" -> IF i = Len(t) THEN <<i>> ELSE <<>>
    [] e.k = "empty" -> <<i>>

\* The successive matches <<i, j>> from position i on: leftmost first; after an
\* empty match the search goes on one character further.
Matches(e, t, i) ==
  FoldLeft(LAMBDA st, p :
      IF p < st.at THEN st
      ELSE LET es == Ends(e, t, p)
           IN IF es = <<>> THEN st
              ELSE [at |-> IF es[1] = p THEN p + 1 ELSE es[1], out |-> Append(st.out, <<p, es[1]>>)],
    [at |-> i, out |-> <<>>], [k \in 1..(Len(t) - i + 1) |-> i + k - 1]).out

\* The text cut into gaps and matches: a sequence of <<i, j, isMatch>>
Partition(e, t) ==
  LET ms == Matches(e, t, 0)
      n == Len(ms)
      Gap(k) == LET a == IF k = 1 THEN 0 ELSE ms[k - 1][2]
                    b == IF k > n THEN Len(t) ELSE ms[k][1]
                IN IF a < b THEN <<<<a, b, FALSE>>>> ELSE <<>>
  IN Flatten([k \in 1..(n + 1) |->
       IF k <= n THEN Gap(k) \o <<<<ms[k][1], ms[k][2], TRUE>>>> ELSE Gap(k)])
=============================================================================
