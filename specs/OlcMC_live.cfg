SPECIFICATION Spec
CONSTANTS
 KLen = 3
 NV = 1000
 Keys <- KeysDef
 Caps <- CapsDef
 Threads = {1, 2}
 Flags = {}
 Record = FALSE
 Setups <- SetupsDef
 Progs <- ProgsDef
 Budget = 0
PROPERTY Progress
