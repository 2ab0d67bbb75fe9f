INIT TraceInit
NEXT Next
CONSTANT Samples = 21
CHECK_DEADLOCK FALSE
