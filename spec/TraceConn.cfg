CONSTANTS Interval = 1
 MaxSleep = 5
 MaxTries = 7
INIT TInit
NEXT TNext
INVARIANTS Quiet ActiveEnabled Waiting NoTasks Counters IsSorted
CHECK_DEADLOCK FALSE
