INIT Init
NEXT Next
CONSTANTS
 Threads = {1, 2, 3}
 Blocks = {1, 2}
 Delay = 2
 Last = 4
INVARIANTS Abstraction NoUseAfterFree
CHECK_DEADLOCK FALSE
