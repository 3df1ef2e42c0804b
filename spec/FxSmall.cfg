SPECIFICATION Spec
INVARIANT Show
CHECK_DEADLOCK FALSE
CONSTANT K = 8
