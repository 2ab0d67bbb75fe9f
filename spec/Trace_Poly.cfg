INIT TraceInit
NEXT Next
CONSTANT Samples = 7
CHECK_DEADLOCK FALSE
