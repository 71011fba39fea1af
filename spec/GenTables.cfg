SPECIFICATION GenSpec
CONSTANTS
  NumSlots <- McSlots
  Addrs <- FewAddrs
  Links <- FewLinks
  Gen = TRUE
INVARIANT Shown
CHECK_DEADLOCK FALSE
