INIT Init
NEXT BNext
CONSTANT NV = 20
CONSTANT KLen = 8
CONSTANT Caps <- RealCaps
CHECK_DEADLOCK FALSE
