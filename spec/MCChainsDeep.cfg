SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS EndsRight ReadsAll Bounded Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
