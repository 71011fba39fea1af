SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
