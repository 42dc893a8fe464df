SPECIFICATION MCSpec
INVARIANTS Cases Terminal PassByPass
CHECK_DEADLOCK FALSE
