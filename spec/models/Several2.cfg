SPECIFICATION Spec
CONSTANTS N = 2
 MaxLen = 2
INVARIANTS Own Told
CHECK_DEADLOCK FALSE
