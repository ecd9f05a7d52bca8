SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT Belongs
INVARIANT RootLast
INVARIANT Kept
CONSTANTS
  Univ = "middle"
  Vals = {1}
  MaxCrash = 2
  MaxFault = 1
  MaxBad = 0
  BadLen = 1
CHECK_DEADLOCK FALSE
