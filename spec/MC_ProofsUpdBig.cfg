SPECIFICATION Spec
VIEW StateView
INVARIANT UpdProofsSound
CONSTANTS
  Univ = "big"
  Vals = {1}
CHECK_DEADLOCK FALSE
