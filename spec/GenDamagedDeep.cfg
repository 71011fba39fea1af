SPECIFICATION Spec
CONSTANT Others = {3, 4}
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
