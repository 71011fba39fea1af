SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  Contents = {1}
  MaxCommands = 0
  Gen = TRUE
CHECK_DEADLOCK FALSE
