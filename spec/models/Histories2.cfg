SPECIFICATION Spec
CONSTANTS K = 14
 L = 2
INVARIANT Pure
CHECK_DEADLOCK FALSE
