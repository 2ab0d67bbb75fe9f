INIT Init
NEXT Next
INVARIANT Total
CHECK_DEADLOCK FALSE
