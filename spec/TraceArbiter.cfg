CONSTANTS Grace = 40
 Period = 40
INIT TInit
NEXT TNext
INVARIANTS Ended Success InOrder Ready Once NoHang
CHECK_DEADLOCK FALSE
