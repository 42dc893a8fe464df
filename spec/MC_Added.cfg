SPECIFICATION MCSpec
INVARIANTS NoCollision Decodable Recognised
PROPERTY Stable
CHECK_DEADLOCK FALSE
