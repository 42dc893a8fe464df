SPECIFICATION MCSpec
INVARIANTS Backtracking Runs Following
CHECK_DEADLOCK FALSE
