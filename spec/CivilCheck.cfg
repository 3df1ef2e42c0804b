CONSTANTS FirstYear=1 Chains=16 ChainYears=26
SPECIFICATION Spec
INVARIANTS Agree OffsetFree MicroOffset
CHECK_DEADLOCK FALSE
