INIT Init
NEXT GenNext
CONSTANTS
  MaxLen = 7
  Alphabet = {0, 1, 4, 186, 255}
  Locations = {0, 1}
  Gen = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
