SPECIFICATION TraceSpec
CONSTANT NumSlots <- RealSlots
VIEW LineView
INVARIANT Conforms
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
