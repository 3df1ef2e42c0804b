SPECIFICATION Spec
CONSTANTS MaxSpan = 14
 MaxStep = 5
INVARIANTS Inside Count
PROPERTY Ends
CHECK_DEADLOCK FALSE
