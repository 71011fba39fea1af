INIT Init
NEXT GenNext
CONSTANTS
  MaxLen = 8
  Alphabet = {0, 1, 4, 5}
  Gen = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
