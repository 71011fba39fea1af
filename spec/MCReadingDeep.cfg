SPECIFICATION Spec
CONSTANTS
  Files = {1, 2, 3}
  Contents = {1, 2}
  Steps = 9
  Gen = 0
  Forgets = TRUE
  Copies = TRUE
INVARIANT Conforms
CHECK_DEADLOCK FALSE
