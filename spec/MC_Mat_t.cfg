CONSTANTS
  W = 1
  K = 2
  Kind = "mat"
  Pairs <- AllPairs
  Values <- Signed3
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Dimension Entries ToGraph
PROPERTIES Grows
CHECK_DEADLOCK FALSE
