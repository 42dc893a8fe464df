SPECIFICATION MCSpec
INVARIANTS Windowed
CHECK_DEADLOCK FALSE
