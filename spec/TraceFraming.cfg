INIT TInit
NEXT TNext
INVARIANTS InOrderOnce NothingLost
CHECK_DEADLOCK FALSE
