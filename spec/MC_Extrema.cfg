SPECIFICATION Spec
CONSTANT Depth = 18
CHECK_DEADLOCK FALSE
INVARIANT Complete
