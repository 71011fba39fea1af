SPECIFICATION Spec
CONSTANTS
  Units = {0, 1}
  Values = {0, 129}
INVARIANTS OnlyWhatWasSet Lossless InStep ToyExact
CHECK_DEADLOCK FALSE
