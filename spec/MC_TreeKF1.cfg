SPECIFICATION Spec
VIEW StateView
INVARIANT Holds
INVARIANT StateHolds
ALIAS Show
CONSTANTS
  Univ = "few"
  MaxSteps = 5
  MaxVer = 1
  MaxOps = 1
  MaxSets = 1
  Vals = {1}
  Appends = TRUE
  Prunes = TRUE
  Pre = FALSE
  KF1 = TRUE
CHECK_DEADLOCK FALSE
