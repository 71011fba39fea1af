SPECIFICATION Spec
CONSTANT Gen = TRUE
CHECK_DEADLOCK FALSE
