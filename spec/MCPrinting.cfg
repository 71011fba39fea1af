SPECIFICATION Spec
CONSTANTS
  Names <- SomeNames
  MaxEntries = 2
  Gen = FALSE
  Late = TRUE
INVARIANTS Conforms Telling
PROPERTY Ends
CHECK_DEADLOCK FALSE
