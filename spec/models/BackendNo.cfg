SPECIFICATION Spec
CONSTANTS N = 4
 HasNumpy = FALSE
INVARIANT LastChosen
PROPERTY OnlySwitchesChange
CHECK_DEADLOCK FALSE
