SPECIFICATION Spec

INVARIANT Example
CHECK_DEADLOCK FALSE
