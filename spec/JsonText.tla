-------------------------------- MODULE JsonText ---------------------------------
(***************************************************************************)
(* JSON (RFC 8259) read from a byte string: ReadJson(b) is <<tree>>, or    *)
(* <<>> when b as a whole is not JSON.  Trees are                          *)
(*   [t |-> "null"], [t |-> "bool", b], [t |-> "str", s],                  *)
(*   [t |-> "int", n], [t |-> "big"]  (an integer outside 32 bits),        *)
(*   [t |-> "real", c]  c = "zero", "one", "between" (0 and 1), "other" or *)
(*                      "huge" (no double is near it),                     *)
(*   [t |-> "arr", l], [t |-> "obj", m]  m a sequence of                   *)
(*                      <<key, tree, is the key written without escapes>>. *)
(* Escapes that do not form a scalar value (lone surrogates) are not JSON. *)
(* Two automata read it: one cuts the text into tokens, a character at a   *)
(* time; one builds the tree, a token at a time, on a stack.               *)
(***************************************************************************)
EXTENDS Text

Space(c) == c \in {32, 9, 10, 13}
Has(p, i, w) == i + Len(w) - 1 <= Len(p) /\ SubSeq(p, i, i + Len(w) - 1) = w
JAt(t, i, c) == i <= Len(t) /\ t[i] = c

Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_, _)
Digits(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN Digits(t, i + 1) ELSE i

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
\* the value of the n hex digits at i, -1 when they are not there
HexAt(t, i, n) ==
  IF i + n - 1 > Len(t) \/ \E k \in i..(i + n - 1) : HexVal(t[k]) < 0 THEN -1
  ELSE FoldLeft(LAMBDA a, k : a * 16 + HexVal(t[k]), 0, [k \in 1..n |-> i + k - 1])

-----------------------------------------------------------------------------
(* Strings *)

ShortEscape(c) ==
  CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
\* the escape whose backslash is at i: <<next, code point>>
Escape(t, i) ==
  IF i + 1 > Len(t) THEN <<0, 0>>
  ELSE IF t[i + 1] # 117 THEN LET c == ShortEscape(t[i + 1]) IN IF c < 0 THEN <<0, 0>> ELSE <<i + 2, c>>
  ELSE LET u == HexAt(t, i + 2, 4)
           v == IF JAt(t, i + 6, 92) /\ JAt(t, i + 7, 117) THEN HexAt(t, i + 8, 4) ELSE -1
       IN IF u < 0 THEN <<0, 0>>
          ELSE IF u < 55296 \/ u > 57343 THEN <<i + 6, u>>
          ELSE IF u < 56320 /\ v >= 56320 /\ v <= 57343 THEN <<i + 12, 65536 + (u - 55296) * 1024 + (v - 56320)>>
          ELSE <<0, 0>>
RECURSIVE Unescape(_, _, _)
Unescape(t, i, acc) ==
  IF i > Len(t) THEN <<acc>>
  ELSE IF t[i] < 32 THEN <<>>
  ELSE IF t[i] # 92 THEN Unescape(t, i + 1, Append(acc, t[i]))
  ELSE LET e == Escape(t, i) IN IF e[1] = 0 THEN <<>> ELSE Unescape(t, e[1], Append(acc, e[2]))
\* what is between the quotes, as a text: <<text>>, or <<>>
StringOf(t) == IF \A k \in 1..Len(t) : t[k] >= 32 /\ t[k] # 92 THEN <<t>> ELSE Unescape(t, 1, <<>>)

-----------------------------------------------------------------------------
(* Numbers *)

RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN DropZeros(Tail(d)) ELSE d
ToNumber(d) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, d)
\* is the number with these digits (no leading zeros) above 2147483648 (or 2147483647)?
MaxDigits == <<50, 49, 52, 55, 52, 56, 51, 54, 52>>
Above(d, last) ==
  \/ Len(d) > 10
  \/ Len(d) = 10 /\ LET x == ToNumber(SubSeq(d, 1, 9)) y == ToNumber(MaxDigits) IN x > y \/ (x = y /\ d[10] > last)
Integer(neg, digits) ==
  LET d == DropZeros(digits)
  IN IF Above(d, IF neg THEN 56 ELSE 55) THEN [t |-> "big"]
     ELSE IF neg /\ Above(d, 55) THEN [t |-> "int", n |-> (-2147483647) - 1]
     ELSE [t |-> "int", n |-> IF neg THEN -ToNumber(d) ELSE ToNumber(d)]
\* where 0.DIGITS * 10^point lies
Real(neg, int, frac, exp) ==
  LET d == DropZeros(int \o frac)
      point == Len(d) - Len(frac) + exp
      one == d # <<>> /\ d[1] = 49 /\ (\A k \in 2..Len(d) : d[k] = 48) /\ point = 1
  IN [t |-> "real", c |-> IF d = <<>> THEN "zero" ELSE IF point > 300 \/ point < -300 THEN "huge" ELSE IF neg THEN "other" ELSE IF one THEN "one" ELSE IF point <= 0 THEN "between" ELSE "other"]

\* the number a word is: <<tree>>, or <<>>
NumberOf(t) ==
  LET neg == JAt(t, 1, 45)
      i == IF neg THEN 2 ELSE 1
      j == Digits(t, i)
      int == SubSeq(t, i, j - 1)
      k == IF JAt(t, j, 46) THEN Digits(t, j + 1) ELSE j
      frac == IF k > j THEN SubSeq(t, j + 1, k - 1) ELSE <<>>
      hasExp == JAt(t, k, 101) \/ JAt(t, k, 69)
      m == IF hasExp THEN (IF JAt(t, k + 1, 43) \/ JAt(t, k + 1, 45) THEN k + 2 ELSE k + 1) ELSE k
      n == IF hasExp THEN Digits(t, m) ELSE k
      e == DropZeros(SubSeq(t, m, n - 1))
      exp == IF Len(e) > 6 THEN 999999 ELSE ToNumber(e)
  IN IF int = <<>> \/ (Len(int) > 1 /\ int[1] = 48) \/ (k > j /\ frac = <<>>) \/ (hasExp /\ n = m) \/ n # Len(t) + 1 THEN <<>>
     ELSE IF k = j /\ ~hasExp THEN <<Integer(neg, int)>>
     ELSE <<Real(neg, int, frac, IF hasExp /\ JAt(t, k + 1, 45) THEN -exp ELSE exp)>>

-----------------------------------------------------------------------------
(* Tokens: <<kind, first, last>>: "p" a punctuator, "s" what is between two *)
(* quotes, "w" a word (a number or a literal)                              *)

Punctuator(c) == c \in {123, 125, 91, 93, 58, 44}
\* one character; st.m is "out", "word", "str", "esc" or "bad", st.i where the token began
Enter(st, c, k) ==
  CASE Space(c) -> [st EXCEPT !.m = "out"]
    [] Punctuator(c) -> [st EXCEPT !.m = "out", !.toks = Append(@, <<"p", k, k>>)]
    [] c = 34 -> [st EXCEPT !.m = "str", !.i = k + 1]
    [] OTHER -> [st EXCEPT !.m = "word", !.i = k]
LexStep(t, st, k) ==
  LET c == t[k]
      ends == Space(c) \/ Punctuator(c) \/ c = 34
  IN CASE st.m = "out" -> Enter(st, c, k)
       [] st.m = "word" -> IF ends THEN Enter([st EXCEPT !.toks = Append(@, <<"w", st.i, k - 1>>)], c, k) ELSE st
       [] st.m = "str" -> IF c = 92 THEN [st EXCEPT !.m = "esc"]
                          ELSE IF c = 34 THEN [st EXCEPT !.m = "out", !.toks = Append(@, <<"s", st.i, k - 1>>)] ELSE st
       [] st.m = "esc" -> [st EXCEPT !.m = "str"]
Tokens(t) ==
  LET st == FoldLeft(LAMBDA s, k : LexStep(t, s, k), [m |-> "out", i |-> 0, toks |-> <<>>], [k \in 1..Len(t) |-> k])
  IN CASE st.m = "out" -> <<st.toks>>
       [] st.m = "word" -> <<Append(st.toks, <<"w", st.i, Len(t)>>)>>
       [] OTHER -> <<>>

True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>
WordOf(w) ==
  CASE w = True -> <<[t |-> "bool", b |-> TRUE]>>
    [] w = False -> <<[t |-> "bool", b |-> FALSE]>>
    [] w = Null -> <<[t |-> "null"]>>
    [] OTHER -> NumberOf(w)

-----------------------------------------------------------------------------
(* The tree.  A stack of open values [k, l, key, m]: m says what may come: *)
(* "first" (an element or key, or the end), "value", "key", "colon",       *)
(* "next" (a comma or the end), "end" (nothing).  <<>>: not JSON.          *)

Frame(k, m) == [k |-> k, l |-> <<>>, key |-> <<>>, m |-> m]
TakesValue(f) == f.m = "value" \/ (f.m = "first" /\ f.k = "arr")
Top(st) == st[Len(st)]
Put(st, f) == [st EXCEPT ![Len(st)] = f]
Deliver(st, v) ==
  LET f == Top(st)
  IN IF ~TakesValue(f) THEN <<>>
     ELSE Put(st, [f EXCEPT !.l = Append(@, IF f.k = "obj" THEN <<f.key[1], v, f.key[2]>> ELSE v), !.m = IF f.k = "doc" THEN "end" ELSE "next"])
Close(st, k) ==
  LET f == Top(st)
  IN IF f.k # k \/ f.m \notin {"first", "next"} THEN <<>>
     ELSE Deliver(SubSeq(st, 1, Len(st) - 1), IF k = "arr" THEN [t |-> "arr", l |-> f.l] ELSE [t |-> "obj", m |-> f.l])
TreeStep(t, st, tok) ==
  IF st = <<>> THEN st
  ELSE LET f == Top(st)
           raw == SubSeq(t, tok[2], tok[3])
           c == t[tok[2]]
       IN CASE tok[1] = "w" -> LET v == WordOf(raw) IN IF v = <<>> THEN <<>> ELSE Deliver(st, v[1])
            [] tok[1] = "s" ->
                 LET s == StringOf(raw)
                 IN IF s = <<>> THEN <<>>
                    ELSE IF f.k = "obj" /\ f.m \in {"first", "key"}
                    THEN Put(st, [f EXCEPT !.key = <<s[1], s[1] = raw>>, !.m = "colon"])
                    ELSE Deliver(st, [t |-> "str", s |-> s[1]])
            [] c = 123 -> IF TakesValue(f) THEN Append(st, Frame("obj", "first")) ELSE <<>>
            [] c = 91 -> IF TakesValue(f) THEN Append(st, Frame("arr", "first")) ELSE <<>>
            [] c = 125 -> Close(st, "obj")
            [] c = 93 -> Close(st, "arr")
            [] c = 58 -> IF f.m = "colon" THEN Put(st, [f EXCEPT !.m = "value"]) ELSE <<>>
            [] c = 44 -> IF f.m = "next" THEN Put(st, [f EXCEPT !.m = IF f.k = "obj" THEN "key" ELSE "value"]) ELSE <<>>

ReadJson(b) ==
  IF ~ValidUtf8(b) THEN <<>>
  ELSE LET t == FromUtf8(b)
           toks == Tokens(t)
           st == FoldLeft(LAMBDA s, tok : TreeStep(t, s, tok), <<Frame("doc", "value")>>, toks[1])
       IN IF toks = <<>> THEN <<>> ELSE IF st = <<>> THEN <<>> ELSE IF Top(st).m = "end" THEN <<st[1].l[1]>> ELSE <<>>
=============================================================================
