INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxG = 1
          MaxMain = 2
          Fresh = FALSE
          Shapes = {1, 3}
INVARIANTS DefinedOnce Same
