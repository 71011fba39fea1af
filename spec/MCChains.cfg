SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS EndsRight ReadsAll Bounded Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
