SPECIFICATION Spec
CONSTANT Opens = {{}, {"do"}, {"po"}, {"do", "po"}}
INVARIANT Printed
CONSTRAINT Once
CHECK_DEADLOCK FALSE
