SPECIFICATION Spec
CONSTANTS
  Keys <- KeysB
  Steps = 36
  Trees = 7
  Txns = 4
  Firsts <- FirstsB
  Untracked = TRUE
INVARIANTS Fires Precise Sensible
CHECK_DEADLOCK FALSE
