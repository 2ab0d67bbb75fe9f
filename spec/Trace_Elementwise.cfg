INIT TraceInit
NEXT Next
CONSTANT Samples = 13
CHECK_DEADLOCK FALSE
