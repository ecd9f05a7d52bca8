SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT StateHolds
ALIAS Show
CONSTANTS
  Univ = "few"
  MaxSteps = 2
  MaxVer = 2
  MaxOps = 2
  MaxSets = 1
  Vals = {1}
  Appends = FALSE
  Prunes = FALSE
  Pre = FALSE
  KF1 = FALSE
CHECK_DEADLOCK FALSE
