INIT TInit
NEXT TNext
INVARIANTS Whole Turn Fits
CHECK_DEADLOCK FALSE
