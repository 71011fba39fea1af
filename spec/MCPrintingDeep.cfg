SPECIFICATION Spec
CONSTANTS
  Names <- MoreNames
  MaxEntries = 3
  Gen = FALSE
  Late = TRUE
INVARIANTS Conforms
PROPERTY Ends
CHECK_DEADLOCK FALSE
