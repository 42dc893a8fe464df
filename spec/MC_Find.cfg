SPECIFICATION MCSpec
INVARIANTS Tiling Declared OneToken
CHECK_DEADLOCK FALSE
