INIT Init
NEXT Next
CONSTANTS
 Threads = {1, 2}
 Blocks = {1, 2}
 Delay = 2
 Last = 6
INVARIANTS Abstraction NoUseAfterFree
CHECK_DEADLOCK FALSE
