SPECIFICATION Spec
CONSTANT Opens = {{}, {"do"}, {"do", "po"}}
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
