SPECIFICATION Spec
VIEW StateView
INVARIANT RangeProofsSound
CONSTANTS
  Univ = "big"
  Vals = {1}
CHECK_DEADLOCK FALSE
