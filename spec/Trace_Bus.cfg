SPECIFICATION TraceSpec
CONSTANT Slots = 8
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
