CONSTANT Max = 4
INIT Init
NEXT Next
INVARIANT Decided
CHECK_DEADLOCK FALSE
