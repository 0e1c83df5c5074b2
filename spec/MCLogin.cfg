INIT Init
NEXT Next
CONSTANT Polls = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
