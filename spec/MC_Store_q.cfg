SPECIFICATION Spec
INVARIANTS Holds Once
PROPERTY Kept
CONSTANTS
  Depth = 3
  Show = FALSE
CHECK_DEADLOCK FALSE
