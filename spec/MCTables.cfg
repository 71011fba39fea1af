SPECIFICATION Spec
CONSTANTS
  NumSlots <- McSlots
  Addrs <- FewAddrs
  Links <- FewLinks
  Gen = FALSE
INVARIANTS ReadsExactly Lookable
CHECK_DEADLOCK FALSE
