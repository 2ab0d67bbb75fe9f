INIT TraceInit
NEXT Next
CONSTANT Samples = 11
CHECK_DEADLOCK FALSE
