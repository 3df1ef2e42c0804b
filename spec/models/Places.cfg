SPECIFICATION Spec
CONSTANTS Dims <- DimsPlaces
 Mod = 1
 Shift = 0
INVARIANTS InRange Emit
CHECK_DEADLOCK FALSE
