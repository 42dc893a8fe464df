SPECIFICATION MCSpec
INVARIANTS Functional
PROPERTY Frame
CHECK_DEADLOCK FALSE
