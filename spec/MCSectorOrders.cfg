SPECIFICATION Spec
CONSTANTS
  Values = {1, 77}
  Changed = {0, 1, 8, 15}
INVARIANT FileAgrees SessionAgrees
CHECK_DEADLOCK FALSE
