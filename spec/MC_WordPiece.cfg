SPECIFICATION MCSpec
INVARIANTS Longest
CHECK_DEADLOCK FALSE
