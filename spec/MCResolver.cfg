SPECIFICATION Spec
INVARIANTS NeverClobbered EdgesHold DoneIsGood ErrorOnlyIfUnresolvable Bounded
CHECK_DEADLOCK FALSE
