INIT TInit
NEXT TNext
INVARIANTS OneName Ordered Known InRange
CHECK_DEADLOCK FALSE
