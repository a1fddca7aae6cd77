INIT TInit
NEXT TNext
INVARIANTS Registered BusyOnce Times InOrder
CHECK_DEADLOCK FALSE
