SPECIFICATION Spec
CONSTANTS N = 5
 MaxProcs = 4
 Default = "numpy"
INVARIANT Modes
PROPERTY Own
CHECK_DEADLOCK FALSE
