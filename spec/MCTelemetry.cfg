INIT Init
NEXT Next
INVARIANT Right
CONSTANT Runs = 4
CHECK_DEADLOCK FALSE
