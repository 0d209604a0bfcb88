CONSTANTS
  W = 1
  K = 2
  Kind = "mat"
  Pairs <- FewPairs
  Values <- Signed5
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Dimension Entries ToGraph
PROPERTIES Grows
CHECK_DEADLOCK FALSE
