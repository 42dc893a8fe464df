SPECIFICATION MCSpec
INVARIANTS Cases Rewritten Complete Unsplit RoundTrip
CHECK_DEADLOCK FALSE
