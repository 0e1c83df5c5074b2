INIT Init
NEXT Next
INVARIANT Right
INVARIANT Once
INVARIANT Gone
INVARIANT Rest
CHECK_DEADLOCK FALSE
