SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
