SPECIFICATION Spec
VIEW StateView
INVARIANT IcsSound
CONSTANTS
  Univ = "wide"
  Vals = {1}
CHECK_DEADLOCK FALSE
