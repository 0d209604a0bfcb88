SPECIFICATION TraceSpec
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
    W = 8
    K = 8
