SPECIFICATION TourSpec
CONSTANTS
  NV = 1
  KLen = 8
  Bufs = {}
  Caps <- CapsDef
  Keys <- KeysDef
  Ballast <- BallastDef
  Active <- ActiveDef
INVARIANTS TourRefines Shape TourAllocOk
CHECK_DEADLOCK FALSE
