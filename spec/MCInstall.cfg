SPECIFICATION Spec
INVARIANT Converged
INVARIANT Linked
INVARIANT LockTells
INVARIANT RecordTrue
PROPERTY LockLast
PROPERTY Idle
CHECK_DEADLOCK FALSE
