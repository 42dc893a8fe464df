----------------------------- MODULE MC_Binding -----------------------------
(* C21: every short Java string, well-formed or not, through the binding. *)
EXTENDS MCBase, Binding
VARIABLES units
allvars == <<tks, last, units>>

\* both ends of the surrogate areas, and what lies around them
UnitSet == {0, 65, 55295, 55296, 56319, 56320, 57343, 57344, 65535} \ (IF Deep THEN {} ELSE {55295})
Most == IF Deep THEN 5 ELSE 4
\* every character that pairs of those units denote, and every unit that is one
Scalars == {u \in UnitSet : ~IsHigh(u) /\ ~IsLow(u)} \cup {65536 + (h - 55296) * 1024 + (l - 56320) : h \in {55296, 56319}, l \in {56320, 57343}}
\* one token for each character, so that the ids say what the text was
ScalarSeq == SetToSortSeq(Scalars, LAMBDA a, b : a < b)
Vocab == [k \in 1..Len(ScalarSeq) |-> <<<<ScalarSeq[k]>>, k>>]
Model1 == [k |-> "BPE", vocab |-> Vocab, merges |-> <<>>, drop |-> 0, unk |-> <<>>, cont |-> <<>>, eow |-> <<>>, fuse |-> FALSE, bf |-> FALSE, ign |-> FALSE]
Cfg1 == [NoCfg EXCEPT !.model = <<Model1>>, !.dec = <<[k |-> "Fuse"]>>]
IdOf(c) == CHOOSE k \in 1..Len(ScalarSeq) : ScalarSeq[k] = c

MCInit == Init /\ units = <<>>
MCNext == UNCHANGED <<tks, last>> /\ Len(units) < Most /\ \E u \in UnitSet : units' = Append(units, u)
MCSpec == MCInit /\ [][MCNext]_allvars

Ids == [k \in 1..Len(FromUtf16(units)) |-> IdOf(FromUtf16(units)[k])]
Cases == Emit(<<[op |-> "jnew", cfg |-> Cfg1], [op |-> "jenc", k |-> 1, u |-> units, special |-> TRUE]>>
              \o (IF WellFormed16(units) THEN <<[op |-> "jdec", k |-> 1, ids |-> Ids, skip |-> TRUE]>> ELSE <<>>))

\* a well-formed string is what its text is written as, and its text is one of characters
Rewritten == WellFormed16(units) => Utf16(FromUtf16(units)) = units /\ \A k \in 1..Len(FromUtf16(units)) : IsScalar(FromUtf16(units)[k])
\* and there is no text behind any other
Complete == Len(units) <= 3 => (WellFormed16(units) <=> \E t \in SeqsOf(Scalars, 0, Len(units)) : Utf16(t) = units)
\* no prefix of a text's string that splits a pair is well-formed
Unsplit == (WellFormed16(units) /\ units # <<>>) => (WellFormed16(SubSeq(units, 1, Len(units) - 1)) <=> ~IsLow(units[Len(units)]))
\* the binding's round trip: encode then decode gives the string back
RoundTrip == WellFormed16(units) =>
  LET tk == NewTokenizer(Cfg1)
      e == JavaEncoded(EncodeWith(tk, FromUtf16(units), TRUE))
  IN e = Returned(Ids) /\ JavaDecoded(DecodeWith(tk, Ids, TRUE)) = <<Returned(units)>>
=============================================================================
