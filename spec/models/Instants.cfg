SPECIFICATION Spec
CONSTANTS Dims <- DimsInstants
 Mod = 1
 Shift = 0
INVARIANTS InRange Emit
CHECK_DEADLOCK FALSE
