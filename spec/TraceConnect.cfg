CONSTANTS Anywhere = 9
INIT TInit
NEXT TNext
INVARIANTS Enough Counts Steady
CHECK_DEADLOCK FALSE
