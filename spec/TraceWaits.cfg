INIT TInit
NEXT TNext
INVARIANTS NoLateWait NoMissedSuccess CountBound StrictlyNewer
CHECK_DEADLOCK FALSE
