SPECIFICATION Spec
CONSTANTS N = 6
 HasNumpy = TRUE
INVARIANT LastChosen
PROPERTY OnlySwitchesChange
CHECK_DEADLOCK FALSE
