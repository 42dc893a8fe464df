SPECIFICATION MCSpec
INVARIANTS FormLaws AlignLaws BertLaws StripLaws
CHECK_DEADLOCK FALSE
