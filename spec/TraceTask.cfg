CONSTANTS Depth = 4
INIT TInit
NEXT TNext
INVARIANTS Enabled Sleeping Counted Limited
CHECK_DEADLOCK FALSE
