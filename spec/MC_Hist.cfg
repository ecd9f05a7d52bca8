SPECIFICATION Spec
VIEW View
INVARIANT Emit
CONSTANTS
  Ns = {1, 2, 3}
  Depths = {0, 1, 3, 4, 5, 7, 8, 11, 252, 255}
  MaxSteps = 2
  Pairs = TRUE
CHECK_DEADLOCK FALSE
