CONSTANTS
  W = 1
  K = 2
  Kind = "adj"
  Pairs <- AllPairs
  Values = {0, 1, 3}
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Dimension Entries ToGraph
PROPERTIES Grows
CHECK_DEADLOCK FALSE
