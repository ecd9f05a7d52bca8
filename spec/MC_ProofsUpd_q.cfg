SPECIFICATION Spec
VIEW StateView
INVARIANT UpdProofsSound
CONSTANTS
  Univ = "middle"
  Vals = {1}
CHECK_DEADLOCK FALSE
