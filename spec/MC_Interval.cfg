INIT Init
NEXT Next
CONSTANTS MaxInt = 2 Exps = {0, 1, 2, 3, 4}
INVARIANTS MulSound MulTight AddTight PowOK PosNegSound PosNegExact
CHECK_DEADLOCK FALSE
