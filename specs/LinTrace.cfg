INIT Init
NEXT Next
CONSTANTS NV = 20
CHECK_DEADLOCK FALSE
