INIT Init
NEXT GenNext
CONSTANTS
  MaxLen = 6
  Alphabet = {0, 1, 4, 6}
  Gen = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
