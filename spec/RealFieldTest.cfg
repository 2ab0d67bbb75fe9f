INIT Init
NEXT Next
INVARIANTS Ring ExpLog Order Known
CHECK_DEADLOCK FALSE
