SPECIFICATION Spec
CONSTANTS N = 4
 Default = "numpy"
INVARIANT Complete
PROPERTY OnlyChoices KeepsWhatItHas
CHECK_DEADLOCK FALSE
