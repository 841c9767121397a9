SPECIFICATION TraceSpec
INVARIANT Inv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
