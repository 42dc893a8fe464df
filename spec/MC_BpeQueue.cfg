SPECIFICATION MCSpec
INVARIANTS Linked Refines
PROPERTY Progress
CHECK_DEADLOCK FALSE
