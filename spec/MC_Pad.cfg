SPECIFICATION MCSpec
INVARIANTS PadLaw
CHECK_DEADLOCK FALSE
