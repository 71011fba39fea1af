SPECIFICATION Spec
CONSTANTS
  Chars <- SomeChars
  MaxLen = 0
  GenLen = 3
  Gen = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
