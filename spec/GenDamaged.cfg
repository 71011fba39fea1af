SPECIFICATION Spec
CONSTANT Others = {3}
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
