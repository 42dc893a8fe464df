SPECIFICATION MCSpec
INVARIANTS Exclusive NoTornRead CacheRight ResultsRight
PROPERTY Returns
CHECK_DEADLOCK FALSE
