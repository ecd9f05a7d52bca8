SPECIFICATION Spec
INVARIANTS Holds Once
PROPERTY Kept
CONSTANTS
  Depth = 4
  Show = FALSE
CHECK_DEADLOCK FALSE
