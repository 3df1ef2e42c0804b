SPECIFICATION Spec
CONSTANTS K = 14
 L = 3
INVARIANT Pure
CHECK_DEADLOCK FALSE
