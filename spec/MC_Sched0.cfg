SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxPairs = 6
  MaxCuts = 0
  Bad = FALSE
CHECK_DEADLOCK FALSE
