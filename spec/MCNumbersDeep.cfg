SPECIFICATION Spec
CONSTANTS
  Chars <- SomeChars
  MaxLen = 6
  GenLen = 0
  Gen = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
