SPECIFICATION Spec
CONSTANTS
  NumSlots <- McSlots
  Addrs <- SomeAddrs
  Links <- SomeLinks
  Gen = FALSE
INVARIANTS ReadsExactly Lookable
CHECK_DEADLOCK FALSE
