INIT Init
NEXT Next
CONSTANTS MaxInt = 4 Exps = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANTS MulSound MulTight AddTight PowOK PosNegSound PosNegExact
CHECK_DEADLOCK FALSE
