SPECIFICATION Spec
CONSTANTS
  Names <- SomeNames
  MaxEntries = 0
  Gen = TRUE
  Late = TRUE

CHECK_DEADLOCK FALSE
