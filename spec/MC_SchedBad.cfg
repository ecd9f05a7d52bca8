SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxPairs = 3
  MaxCuts = 2
  Bad = TRUE
CHECK_DEADLOCK FALSE
