SPECIFICATION MCSpec
INVARIANTS Cases Templated Trimmed
CHECK_DEADLOCK FALSE
