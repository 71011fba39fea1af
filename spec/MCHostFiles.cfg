SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Contents = {1, 2}
  MaxCommands = 2
  Gen = FALSE
INVARIANTS Promise Undisturbed
PROPERTY WritesLast
CHECK_DEADLOCK FALSE
