SPECIFICATION Spec
CONSTANT Gen = FALSE
INVARIANTS Decided Unnamed
CHECK_DEADLOCK FALSE
