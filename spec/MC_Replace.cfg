SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxAdds = 1 Safe = TRUE
INVARIANTS WF Same AsFunction
PROPERTY Progress
CHECK_DEADLOCK FALSE
