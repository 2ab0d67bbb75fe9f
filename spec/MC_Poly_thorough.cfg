INIT Init
NEXT Next
CONSTANTS MaxLen = 5 MaxExp = 6
INVARIANTS Same Degree
CHECK_DEADLOCK FALSE
