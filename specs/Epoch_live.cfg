SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Blocks = {1}
 Delay = 2
 Last = 4
PROPERTIES Reclaimed
CHECK_DEADLOCK FALSE
