INIT TInit
NEXT TNext
INVARIANTS OneToOne ValidNames ItemsNamed
CHECK_DEADLOCK FALSE
