SPECIFICATION Spec
INVARIANT Whole_
INVARIANT NoFail
CONSTANTS
  Keys = 2
  Last = 3
  Readers = 2
  Pruners = 2
  Whole = TRUE
CHECK_DEADLOCK FALSE
