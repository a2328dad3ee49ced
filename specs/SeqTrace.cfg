INIT Init
NEXT Next
CONSTANT NV = 20
CONSTANT KLen = 8
CONSTANT Caps <- RealCaps
CHECK_DEADLOCK FALSE
