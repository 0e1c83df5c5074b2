INIT Init
NEXT Next
INVARIANTS Right Asked
CHECK_DEADLOCK FALSE
