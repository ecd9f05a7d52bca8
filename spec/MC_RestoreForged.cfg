SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT Belongs
INVARIANT RootLast
INVARIANT Kept
CONSTANTS
  Univ = "middle"
  Vals = {1}
  MaxCrash = 1
  MaxFault = 1
  MaxBad = 1
  BadLen = 2
CHECK_DEADLOCK FALSE
