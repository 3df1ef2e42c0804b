SPECIFICATION Spec
CONSTANTS N = 4
 MaxProcs = 3
 Default = "numpy"
INVARIANT Modes
PROPERTY Own
CHECK_DEADLOCK FALSE
