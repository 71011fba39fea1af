SPECIFICATION Spec
CONSTANTS
  Files = {1, 2}
  Contents = {1, 2}
  Steps = 0
  Gen = 3
  Forgets = TRUE
  Copies = TRUE
INVARIANT Conforms
CHECK_DEADLOCK FALSE
