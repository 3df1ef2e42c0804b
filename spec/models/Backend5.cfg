SPECIFICATION Spec
CONSTANTS N = 5
 HasNumpy = TRUE
INVARIANT LastChosen
PROPERTY OnlySwitchesChange
CHECK_DEADLOCK FALSE
