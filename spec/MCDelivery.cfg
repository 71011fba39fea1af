SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 7, 8, 14, 15, 16, 17, 31, 32, 48, 176}
  First = 16
  Lengths = {}
  Addresses = {}
  Gen = FALSE
INVARIANTS InOrder Complete SmallStack
PROPERTY Ends
CHECK_DEADLOCK FALSE
