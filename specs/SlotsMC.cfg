INIT Init
NEXT Next
CONSTANTS
 NB = 6
 Caps <- CapsDef
 Kids = {1, 2}
INVARIANTS Means Reads FreeList Smallest
CHECK_DEADLOCK FALSE
