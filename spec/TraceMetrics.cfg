CONSTANTS Depth = 50
INIT TInit
NEXT TNext
INVARIANTS Counted Accounted Bounded
CHECK_DEADLOCK FALSE
