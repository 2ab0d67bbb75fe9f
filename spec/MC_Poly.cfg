INIT Init
NEXT Next
CONSTANTS MaxLen = 4 MaxExp = 4
INVARIANTS Same Degree
CHECK_DEADLOCK FALSE
