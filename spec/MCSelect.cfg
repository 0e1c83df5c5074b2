INIT Init
NEXT Next
INVARIANTS Published MeetsIt NoneBetter ErrorOnlyIfNothing TagFirst OrderTotal
CHECK_DEADLOCK FALSE
