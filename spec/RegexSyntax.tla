----------------------------- MODULE RegexSyntax -----------------------------
(***************************************************************************)
(* The regular expressions of a configuration, read from their text (the   *)
(* part of ICU's syntax that pre-tokenizers use) into the trees of Regex.  *)
(* A reader returns <<j, tree>>, j the index after what it read; j = 0:    *)
(* the text is not a regular expression; j = -1: it may well be one, but   *)
(* the specification does not say what it matches.                         *)
(***************************************************************************)
EXTENDS Regex, JsonText

Wrong == <<0, [k |-> "empty"]>>
Unsaid == <<-1, [k |-> "empty"]>>
AsciiLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
AsciiLower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
AsciiAlnum(c) == AsciiLetter(c) \/ Digit(c)

\* the name of a general category, as the tables have it
CategoryNames == [x \in {<<76>>, <<78>>, <<77>>, <<80>>, <<90>>, <<83>>, <<76, 117>>, <<76, 108>>, <<78, 100>>, <<77, 110>>, <<90, 115>>, <<80, 99>>, <<78, 108>>, <<83, 109>>} |->
   CASE x = <<76>> -> "L" [] x = <<78>> -> "N" [] x = <<77>> -> "M" [] x = <<80>> -> "P" [] x = <<90>> -> "Z" [] x = <<83>> -> "S"
     [] x = <<76, 117>> -> "Lu" [] x = <<76, 108>> -> "Ll" [] x = <<78, 100>> -> "Nd" [] x = <<77, 110>> -> "Mn" [] x = <<90, 115>> -> "Zs"
     [] x = <<80, 99>> -> "Pc" [] x = <<78, 108>> -> "Nl" [] x = <<83, 109>> -> "Sm"]

RECURSIVE IndexFrom(_, _, _)
IndexFrom(p, i, c) == IF i > Len(p) THEN 0 ELSE IF p[i] = c THEN i ELSE IndexFrom(p, i + 1, c)

\* What the backslash at i introduces: <<j, kind, value>>: "c" a character, "i" a class item,
\* "bot", "eot"; j = 0, -1 as above.
EscapeAt(p, i) ==
  IF i + 1 > Len(p) THEN <<0, "", 0>>
  ELSE LET c == p[i + 1]
           close == IndexFrom(p, i + 2, 125)
           name == SubSeq(p, i + 3, close - 1)
           hex == IF Len(name) = 0 \/ Len(name) > 6 THEN -1 ELSE HexAt(p, i + 3, Len(name))
           two == HexAt(p, i + 2, 2)
           four == HexAt(p, i + 2, 4)
       IN CASE c = 120 /\ JAt(p, i + 2, 123) -> IF close = 0 \/ hex < 0 \/ hex > 1114111 THEN <<0, "", 0>> ELSE <<close + 1, "c", hex>>
            [] c = 120 -> IF two < 0 THEN <<-1, "", 0>> ELSE <<i + 4, "c", two>>
            [] c = 117 -> IF four < 0 THEN <<0, "", 0>> ELSE <<i + 6, "c", four>>
            [] c = 112 -> IF ~JAt(p, i + 2, 123) \/ close = 0 THEN <<0, "", 0>>
                          ELSE IF name \in DOMAIN CategoryNames THEN <<close + 1, "i", [t |-> "g", g |-> CategoryNames[name]]>>
                          ELSE IF name # <<>> /\ \A k \in 1..Len(name) : ~AsciiAlnum(name[k]) THEN <<0, "", 0>> ELSE <<-1, "", 0>>
            [] c = 115 -> <<i + 2, "i", [t |-> "s"]>>
            [] c = 83 -> <<i + 2, "i", [t |-> "S"]>>
            [] c = 100 -> <<i + 2, "i", [t |-> "d"]>>
            [] c = 110 -> <<i + 2, "c", 10>>
            [] c = 114 -> <<i + 2, "c", 13>>
            [] c = 116 -> <<i + 2, "c", 9>>
            [] c = 65 -> <<i + 2, "bot", 0>>
            [] c = 122 -> <<i + 2, "eot", 0>>
            [] AsciiAlnum(c) -> <<-1, "", 0>>
            [] OTHER -> <<i + 2, "c", c>>

-----------------------------------------------------------------------------
(* Character classes: the items from i on, up to the bracket *)

\* one character of a class, for a range: <<j, kind, value>>
ClassChar(p, i) ==
  IF i > Len(p) THEN <<0, "", 0>>
  ELSE IF p[i] = 92 THEN EscapeAt(p, i)
  ELSE IF p[i] \in {45, 91} \/ (p[i] = 38 /\ JAt(p, i + 1, 38)) THEN <<-1, "", 0>>
  ELSE <<i + 1, "c", p[i]>>
RECURSIVE ClassItems(_, _, _)
ClassItems(p, i, items) ==
  IF i > Len(p) THEN <<0, items>>
  ELSE IF p[i] = 93 THEN IF items = <<>> THEN <<-1, items>> ELSE <<i + 1, items>>
  ELSE LET a == ClassChar(p, i)
           range == a[1] > 0 /\ JAt(p, a[1], 45) /\ ~JAt(p, a[1] + 1, 93)
           b == ClassChar(p, a[1] + 1)
       IN IF a[1] <= 0 THEN <<a[1], items>>
          ELSE IF a[2] \notin {"c", "i"} THEN <<-1, items>>
          ELSE IF ~range THEN ClassItems(p, a[1], Append(items, IF a[2] = "i" THEN a[3] ELSE [t |-> "r", a |-> a[3], b |-> a[3]]))
          ELSE IF b[1] <= 0 THEN <<b[1], items>>
          ELSE IF a[2] # "c" \/ b[2] # "c" THEN <<-1, items>>
          ELSE IF a[3] > b[3] THEN <<0, items>>
          ELSE ClassItems(p, b[1], Append(items, [t |-> "r", a |-> a[3], b |-> b[3]]))
ClassAt(p, i) ==
  LET neg == JAt(p, i + 1, 94)
      r == ClassItems(p, IF neg THEN i + 2 ELSE i + 1, <<>>)
  IN IF r[1] <= 0 THEN <<r[1], [k |-> "empty"]>> ELSE <<r[1], [k |-> "cls", neg |-> neg, items |-> r[2]]>>

-----------------------------------------------------------------------------
(* Quantifiers: <<j, min, max, mode>>; j = i when there is none *)

Mode(p, j) == IF JAt(p, j, 63) THEN <<j + 1, "lazy">> ELSE IF JAt(p, j, 43) THEN <<j + 1, "poss">> ELSE <<j, "greedy">>
Braces(p, i) ==
  LET a == Digits(p, i + 1)
      b == IF JAt(p, a, 44) THEN Digits(p, a + 1) ELSE a
      n == ToNumber(SubSeq(p, i + 1, a - 1))
      m == IF b = a THEN n ELSE IF b = a + 1 THEN -1 ELSE ToNumber(SubSeq(p, a + 1, b - 1))
  IN IF a = i + 1 \/ a > i + 4 \/ b > a + 4 THEN <<-1, 0, 0>>
     ELSE IF ~JAt(p, b, 125) \/ (m >= 0 /\ m < n) THEN <<0, 0, 0>> ELSE <<b + 1, n, m>>
QuantAt(p, i) ==
  LET r == IF JAt(p, i, 42) THEN <<i + 1, 0, -1>> ELSE IF JAt(p, i, 43) THEN <<i + 1, 1, -1>> ELSE IF JAt(p, i, 63) THEN <<i + 1, 0, 1>>
           ELSE IF JAt(p, i, 123) THEN Braces(p, i) ELSE <<i, 0, 0>>
      m == Mode(p, r[1])
  IN IF r[1] = i \/ r[1] <= 0 THEN <<r[1], 0, 0, "">> ELSE <<m[1], r[2], r[3], m[2]>>
Quantifier(c) == c \in {42, 43, 63}

-----------------------------------------------------------------------------
\* two letters some single character is equal to when case is ignored
Ligatures == {<<115, 115>>, <<115, 116>>, <<102, 102>>, <<102, 105>>, <<102, 108>>}

RECURSIVE AltAt(_, _, _, _)
RECURSIVE SeqAt(_, _, _, _)
RECURSIVE AtomAt(_, _, _)
\* alternatives from i to the closing parenthesis or the end
AltAt(p, i, ci, done) ==
  LET s == SeqAt(p, i, ci, <<>>)
      all == Append(done, s[2])
  IN IF s[1] <= 0 THEN s
     ELSE IF JAt(p, s[1], 124) THEN AltAt(p, s[1] + 1, ci, all)
     ELSE <<s[1], IF Len(all) = 1 THEN all[1] ELSE [k |-> "alt", l |-> all]>>
SeqAt(p, i, ci, done) ==
  IF i > Len(p) \/ p[i] \in {124, 41}
  THEN <<i, IF done = <<>> THEN [k |-> "empty"] ELSE IF Len(done) = 1 THEN done[1] ELSE [k |-> "seq", l |-> done]>>
  ELSE LET a == AtomAt(p, i, ci)
           q == QuantAt(p, a[1])
           zero == a[2].k \in {"la", "nla", "bot", "eot", "empty"}
           e == [k |-> "rep", e |-> a[2], min |-> q[2], max |-> q[3], mode |-> q[4]]
           prev == IF done = <<>> THEN [k |-> "empty"] ELSE done[Len(done)]
       IN IF a[1] <= 0 THEN a
          ELSE IF q[1] <= 0 THEN <<q[1], a[2]>>
          ELSE IF q[1] > a[1] /\ q[1] <= Len(p) /\ Quantifier(p[q[1]]) THEN Wrong
          ELSE IF q[1] > a[1] /\ zero THEN Unsaid
          ELSE IF ci /\ a[2].k = "lit" /\ prev.k = "lit" /\ <<prev.s[1], a[2].s[1]>> \in Ligatures THEN Unsaid
          ELSE SeqAt(p, q[1], ci, Append(done, IF q[1] > a[1] THEN e ELSE a[2]))
\* what is between the parenthesis before i and its partner
GroupAt(p, i, ci, Wrap(_)) ==
  LET r == AltAt(p, i, ci, <<>>)
  IN IF r[1] <= 0 THEN r ELSE IF ~JAt(p, r[1], 41) THEN Wrong ELSE <<r[1] + 1, Wrap(r[2])>>
CharLit(c, ci) == IF ~ci THEN [k |-> "lit", s |-> <<c>>, ci |-> FALSE] ELSE [k |-> "lit", s |-> <<AsciiLower(c)>>, ci |-> TRUE]
AtomAt(p, i, ci) ==
  LET c == p[i]
      e == EscapeAt(p, i)
  IN CASE c = 40 /\ Has(p, i, <<40, 63, 58>>) -> GroupAt(p, i + 3, ci, LAMBDA x : x)
       [] c = 40 /\ Has(p, i, <<40, 63, 105, 58>>) -> GroupAt(p, i + 4, TRUE, LAMBDA x : x)
       [] c = 40 /\ Has(p, i, <<40, 63, 61>>) -> GroupAt(p, i + 3, ci, LAMBDA x : [k |-> "la", e |-> x])
       [] c = 40 /\ Has(p, i, <<40, 63, 33>>) -> GroupAt(p, i + 3, ci, LAMBDA x : [k |-> "nla", e |-> x])
       [] c = 40 /\ JAt(p, i + 1, 63) -> IF IndexFrom(p, i, 41) = 0 THEN Wrong ELSE Unsaid
       [] c = 40 -> GroupAt(p, i + 1, ci, LAMBDA x : x)
       [] c = 91 -> LET r == ClassAt(p, i) IN IF r[1] > 0 /\ ci THEN Unsaid ELSE r
       [] c = 92 -> IF e[1] <= 0 THEN <<e[1], [k |-> "empty"]>>
                    ELSE CASE e[2] = "c" -> IF ci /\ e[3] > 127 THEN Unsaid ELSE <<e[1], CharLit(e[3], ci)>>
                           [] e[2] = "i" -> IF ci THEN Unsaid ELSE <<e[1], [k |-> "cls", neg |-> FALSE, items |-> <<e[3]>>]>>
                           [] OTHER -> <<e[1], [k |-> e[2]]>>
       [] Quantifier(c) -> Wrong
       [] c \in {36, 46, 93, 94, 123, 125} -> Unsaid
       [] OTHER -> IF ci /\ c > 127 THEN Unsaid ELSE <<i + 1, CharLit(c, ci)>>

\* the whole text: [s |-> "ok", v |-> tree], [s |-> "bad"] or [s |-> "free"]
ReadRegex(p) ==
  LET r == AltAt(p, 1, FALSE, <<>>)
  IN IF r[1] = 0 \/ (r[1] > 0 /\ r[1] <= Len(p)) THEN [s |-> "bad"] ELSE IF r[1] < 0 THEN [s |-> "free"] ELSE [s |-> "ok", v |-> r[2]]
=============================================================================
