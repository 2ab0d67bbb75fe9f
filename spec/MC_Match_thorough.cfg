INIT Init
NEXT Next
CONSTANT Shapes <- Shapes2
INVARIANTS Sound Unique Found
CHECK_DEADLOCK FALSE
