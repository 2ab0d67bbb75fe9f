INIT TraceInit
NEXT Next
CONSTANT Samples = 33
CHECK_DEADLOCK FALSE
