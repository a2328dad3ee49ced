INIT Init
NEXT Next
VIEW View
CONSTANTS
 KLen = 3
 NV = 1000
 Keys <- KeysDef
 Caps <- CapsDef
 Threads = {1, 2}
 Flags = {"check_ignores_lock"}
 Record = FALSE
 Setups <- SetupsDef
 Progs <- ProgsDef
 Budget = 0
INVARIANTS Linearizable NoUseAfterFree NoLeak Unlocked0 FinalTree
