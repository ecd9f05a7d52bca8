SPECIFICATION Spec
VIEW View
INVARIANT Emit
CONSTANTS
  Ns = {4}
  Depths = {0, 1, 3, 4, 7, 8, 255}
  MaxSteps = 1
  Pairs = FALSE
CHECK_DEADLOCK FALSE
