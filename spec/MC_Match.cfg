INIT Init
NEXT Next
CONSTANT Shapes <- Shapes1
INVARIANTS Sound Unique Found
CHECK_DEADLOCK FALSE
