SPECIFICATION Spec
CONSTANTS
  Sizes = {1}
  First = 16
  Lengths = {0, 1, 255, 256, 257, 1792, 1793, 3839, 3840, 3841, 4097, 8000, 45056, 45057, 49152}
  Addresses = {0, 1, 256, 2048, 2303, 4096, 8192, 24576, 24577, 24578, 24580, 24584, 24592, 24608, 24640, 24704, 48640, 48896, 49151, 49152, 65280}
  Gen = TRUE
CHECK_DEADLOCK FALSE
