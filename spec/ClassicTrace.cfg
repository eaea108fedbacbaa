SPECIFICATION TSpec
INVARIANT Promises
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
VIEW TView
