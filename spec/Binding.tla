------------------------------- MODULE Binding -------------------------------
(***************************************************************************)
(* The Android binding: the same state machine behind java.lang.String.    *)
(* A Java string is a sequence of UTF-16 code units; it denotes a text     *)
(* when every surrogate is one of a pair.  The binding adds no state.      *)
(***************************************************************************)
EXTENDS Tokenizer

IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343

WellFormed16(s) ==
  \A k \in 1..Len(s) : /\ IsHigh(s[k]) => k < Len(s) /\ IsLow(s[MinI(k + 1, Len(s))])
                       /\ IsLow(s[k]) => k > 1 /\ IsHigh(s[MaxI(k - 1, 1)])

\* the text a well-formed string denotes
FromUtf16(s) ==
  LET at == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : ~IsLow(s[k]))
  IN [k \in 1..Len(at) |-> IF IsHigh(s[at[k]]) THEN 65536 + (s[at[k]] - 55296) * 1024 + (s[at[k] + 1] - 56320) ELSE s[at[k]]]

Utf16Char(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Utf16(t) == FlatMap(t, Utf16Char)

\* what the calls return, given what the library's own return (last)
JavaEncoded(r) == IF r.ok THEN Returned(r.v.ids) ELSE Threw
\* a decoded text that is not well-formed UTF-8 has no exact Java string: <<>>
JavaDecoded(r) == IF ValidUtf8(r.v) THEN <<Returned(Utf16(FromUtf8(r.v)))>> ELSE <<>>
=============================================================================
