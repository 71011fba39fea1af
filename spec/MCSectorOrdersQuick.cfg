SPECIFICATION Spec
CONSTANTS
  Values = {77}
  Changed = {1, 8}
INVARIANT FileAgrees SessionAgrees
CHECK_DEADLOCK FALSE
