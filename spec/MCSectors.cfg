SPECIFICATION Spec
CONSTANTS
  Units = {0, 1, 2}
  Asked = {0, 1, 2, 3, 16}
  Values = {0, 1, 2}
INVARIANT Refused
PROPERTY Frame
CHECK_DEADLOCK FALSE
