SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxAdds = 1 Safe = FALSE
INVARIANTS WF
CHECK_DEADLOCK FALSE
