INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxG = 1
          MaxMain = 2
          Fresh = TRUE
          Shapes <- SomeShapes
INVARIANTS DefinedOnce Same
