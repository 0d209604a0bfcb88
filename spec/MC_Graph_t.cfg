CONSTANTS
  W = 1
  K = 2
  Ids = {0, 1, 2, 255}
  Lists = 2
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Membership Mirrored Counted Vertices Neighbours DegreeSums Sound
PROPERTIES Grows Idle
CHECK_DEADLOCK FALSE
