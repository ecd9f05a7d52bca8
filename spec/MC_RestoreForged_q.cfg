SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT Belongs
INVARIANT RootLast
INVARIANT Kept
CONSTANTS
  Univ = "small"
  Vals = {1}
  MaxCrash = 1
  MaxFault = 0
  MaxBad = 1
  BadLen = 1
CHECK_DEADLOCK FALSE
