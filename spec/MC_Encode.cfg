SPECIFICATION MCSpec
INVARIANTS Coherent ThrowsOnlyWhen NothingLost NoneAdded TemplateEverywhere
CHECK_DEADLOCK FALSE
