SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {0, 1, 4, 5, 7}
  Gen = FALSE
INVARIANTS Agrees Rendering RoundTrip
PROPERTY Ends
CHECK_DEADLOCK FALSE
