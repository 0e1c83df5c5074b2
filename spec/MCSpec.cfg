INIT Init
NEXT Next
INVARIANT Means
INVARIANT Back
INVARIANT Documented
CHECK_DEADLOCK FALSE
