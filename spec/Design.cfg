SPECIFICATION Spec
CONSTANTS
  Keys <- KeysA
  Steps = 5
  Trees = 3
  Txns = 2
  Firsts <- FirstsA
  Untracked = TRUE
INVARIANTS Fires Precise Sensible
CHECK_DEADLOCK FALSE
