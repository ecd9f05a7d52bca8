SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT Belongs
INVARIANT RootLast
INVARIANT Kept
CONSTANTS
  Univ = "wide"
  Vals = {1}
  MaxCrash = 2
  MaxFault = 2
  MaxBad = 0
  BadLen = 1
CHECK_DEADLOCK FALSE
