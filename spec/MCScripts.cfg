SPECIFICATION Spec
INVARIANTS InOrder Once Limited NoneAfterFailure FailsIfMust
PROPERTY Ends
