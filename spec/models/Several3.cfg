SPECIFICATION Spec
CONSTANTS N = 3
 MaxLen = 2
INVARIANTS Own Told
CHECK_DEADLOCK FALSE
