SPECIFICATION Spec
CONSTANTS
  Units = {0, 1}
  Values = {0, 1, 255}
INVARIANTS OnlyWhatWasSet Lossless InStep ToyExact
CHECK_DEADLOCK FALSE
