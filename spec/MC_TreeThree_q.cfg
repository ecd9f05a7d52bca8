SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT StateHolds
ALIAS Show
CONSTANTS
  Univ = "three"
  MaxSteps = 2
  MaxVer = 2
  MaxOps = 1
  MaxSets = 1
  Vals = {1}
  Appends = FALSE
  Prunes = TRUE
  Pre = FALSE
  KF1 = FALSE
CHECK_DEADLOCK FALSE
