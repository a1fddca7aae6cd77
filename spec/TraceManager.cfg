CONSTANTS Interval = 2
 MaxSleep = 200
 MaxTries = 20
 Grace = 20
INIT TInit
NEXT TNext
INVARIANTS Listed Processed Alive NotBoth AllDown Bounded
CHECK_DEADLOCK FALSE
