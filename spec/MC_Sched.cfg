SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxPairs = 3
  MaxCuts = 2
  Bad = FALSE
CHECK_DEADLOCK FALSE
