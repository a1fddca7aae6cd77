INIT TInit
NEXT TNext
INVARIANTS AtMostOncePerUpdate InOrder Truthful UniqueIds
CHECK_DEADLOCK FALSE
