SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxAdds = 1 Safe = FALSE
INVARIANTS Same
CHECK_DEADLOCK FALSE
