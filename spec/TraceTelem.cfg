CONSTANTS Header = 10
 Overhead = 68
INIT TInit
NEXT TNext
INVARIANTS Once Small True
CHECK_DEADLOCK FALSE
