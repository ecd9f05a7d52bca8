SPECIFICATION Spec
INVARIANT Whole_
INVARIANT NoFail
CONSTANTS
  Keys = 2
  Last = 2
  Readers = 2
  Pruners = 2
  Whole = FALSE
CHECK_DEADLOCK FALSE
