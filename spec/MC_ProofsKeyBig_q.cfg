SPECIFICATION Spec
VIEW StateView
INVARIANT KeyProofsSound
CONSTANTS
  Univ = "big"
  Vals = {1}
CHECK_DEADLOCK FALSE
