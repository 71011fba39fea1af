SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  Contents = {1, 2}
  MaxCommands = 4
  Gen = FALSE
INVARIANTS Promise Undisturbed
PROPERTY WritesLast
CHECK_DEADLOCK FALSE
