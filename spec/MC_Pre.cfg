SPECIFICATION MCSpec
INVARIANTS PartitionLaws BertLaw RoundTrip Alphabet
CHECK_DEADLOCK FALSE
