CONSTANTS
  W = 1
  K = 2
  DirN = 2
  UndN = 3
  Emit = TRUE
SPECIFICATION MSpec
INVARIANTS PoolRight ApproxRight CompressRight DecompressRight RecodeRight BuilderRight TextRight CTextRight
CHECK_DEADLOCK FALSE
