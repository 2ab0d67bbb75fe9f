INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxG = 1
          MaxMain = 2
          Fresh = TRUE
          Shapes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS DefinedOnce Same
