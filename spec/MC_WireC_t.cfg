CONSTANTS
  W = 1
  K = 2
  Kind = "cgraph"
  MaxRecs = 3
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS ExactlyWellFormed Outcome
CHECK_DEADLOCK FALSE
