SPECIFICATION Spec
CONSTANTS
  NV = 1
  KLen = 3
  Caps <- CapsDef
  Keys <- KeysDef
  Bufs <- BufsDef
INVARIANTS Refines Shape AllocOk ScanOk
CHECK_DEADLOCK FALSE
