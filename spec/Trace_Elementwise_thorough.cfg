INIT TraceInit
NEXT Next
CONSTANT Samples = 60
CHECK_DEADLOCK FALSE
