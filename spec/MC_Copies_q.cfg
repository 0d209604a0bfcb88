CONSTANTS
  W = 1
  K = 2
  Ids = {1}
  Emit = TRUE
SPECIFICATION MSpec
VIEW MView
INVARIANTS Sound
PROPERTIES OnlyTarget EqualAtFirst
CHECK_DEADLOCK FALSE
