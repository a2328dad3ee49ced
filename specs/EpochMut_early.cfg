INIT Init
NEXT Next
CONSTANTS
 Threads = {1, 2}
 Blocks = {1, 2}
 Delay = 1
 Last = 4
INVARIANTS Abstraction NoUseAfterFree
CHECK_DEADLOCK FALSE
