SPECIFICATION Spec
INVARIANT Identities
CHECK_DEADLOCK FALSE
CONSTANT K = 100
