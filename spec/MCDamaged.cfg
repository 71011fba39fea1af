SPECIFICATION Spec
CONSTANT Others = {3, 4}
INVARIANTS RightEnd Bounded
CHECK_DEADLOCK FALSE
