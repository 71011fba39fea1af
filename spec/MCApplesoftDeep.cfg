SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Alphabet = {0, 1, 3, 5, 186, 255}
  Locations = {0, 1}
  Gen = FALSE
INVARIANTS Agrees RoundTrip

CHECK_DEADLOCK FALSE
