SPECIFICATION Spec
CONSTANTS
  Chars <- SomeChars
  MaxLen = 0
  GenLen = 2
  Gen = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
