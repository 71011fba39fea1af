SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {0, 1, 3, 5, 186, 255}
  Locations = {0, 1, 2}
  Gen = FALSE
INVARIANTS Agrees RoundTrip
PROPERTY Ends
CHECK_DEADLOCK FALSE
