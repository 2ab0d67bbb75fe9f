INIT TraceInit
NEXT Next
CHECK_DEADLOCK FALSE
