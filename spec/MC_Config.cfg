SPECIFICATION MCSpec
INVARIANTS Cases TreeCases RoundTrip Broken Honoured Rejected BadWins
CHECK_DEADLOCK FALSE
