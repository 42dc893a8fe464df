SPECIFICATION MCSpec
INVARIANTS DecodeLaws ByteLaws
CHECK_DEADLOCK FALSE
