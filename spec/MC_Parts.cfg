SPECIFICATION MCSpec
INVARIANTS Grouping Naming Splitting Merging Argued Printable
CHECK_DEADLOCK FALSE
