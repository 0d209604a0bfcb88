CONSTANTS
  MaxBlocks = 2
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Accounted NoneLeft Owners Unchanged
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
