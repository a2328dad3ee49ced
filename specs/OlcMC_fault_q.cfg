INIT Init
NEXT Next
VIEW View
CONSTANTS
 KLen = 3
 NV = 1000
 Keys <- KeysDef
 Caps <- CapsDef
 Threads = {1, 2}
 Flags = {}
 Record = FALSE
 Setups <- SetupsDef
 Progs <- ProgsDef
 Budget = 1
INVARIANTS Linearizable NoUseAfterFree NoLeak Unlocked0 FinalTree
