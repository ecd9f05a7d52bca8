SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Depth = 4
  Show = TRUE
CHECK_DEADLOCK FALSE
