SPECIFICATION Spec
CONSTANTS N = 4
 HasNumpy = TRUE
INVARIANT LastChosen
PROPERTY OnlySwitchesChange
CHECK_DEADLOCK FALSE
