INIT TInit
NEXT TNext
INVARIANTS Disjoint Inside UniqueNames
CHECK_DEADLOCK FALSE
