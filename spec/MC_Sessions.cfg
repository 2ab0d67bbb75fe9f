INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NumF = 28
          Missings = {"none", "f", "D", "prop", "x", "region", "dtype", "x64", "rule"}
INVARIANT FunctionOfEssence
