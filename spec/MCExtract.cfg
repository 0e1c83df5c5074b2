INIT Init
NEXT Next
INVARIANTS Right Modes Apart
CHECK_DEADLOCK FALSE
