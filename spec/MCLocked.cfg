SPECIFICATION Spec
INVARIANTS NeverClobbered EdgesHold SameTree NeverFails NothingAsked
CHECK_DEADLOCK FALSE
