SPECIFICATION Spec
CONSTANTS N = 5
 Default = "numpy"
INVARIANT Complete
PROPERTY OnlyChoices KeepsWhatItHas
CHECK_DEADLOCK FALSE
