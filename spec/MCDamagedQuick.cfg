SPECIFICATION Spec
CONSTANT Others = {3}
INVARIANTS RightEnd Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
