SPECIFICATION TraceSpec
VIEW LineView
INVARIANT Conforms
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
