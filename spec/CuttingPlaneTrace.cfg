SPECIFICATION TSpec
INVARIANT AtEnd
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
VIEW TView
