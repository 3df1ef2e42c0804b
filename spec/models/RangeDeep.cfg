SPECIFICATION Spec
CONSTANTS MaxSpan = 60
 MaxStep = 13
INVARIANTS Inside Count
PROPERTY Ends
CHECK_DEADLOCK FALSE
