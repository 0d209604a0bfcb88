CONSTANTS
  W = 1
  K = 2
  Ids = {1}
  Threads = {1, 2}
  Depth = 10
  Emit = TRUE
SPECIFICATION MSpec
VIEW MView
CONSTRAINT Near
INVARIANTS AsIfAlone SharedStays
PROPERTIES Answers
CHECK_DEADLOCK FALSE
