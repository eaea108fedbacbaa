SPECIFICATION TSpec
CONSTANT Grid <- TGrid
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
VIEW TView
