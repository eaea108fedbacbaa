SPECIFICATION TSpec
INVARIANT TProps
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
VIEW TView
