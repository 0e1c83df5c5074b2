SPECIFICATION Spec
INVARIANTS Bounded Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
