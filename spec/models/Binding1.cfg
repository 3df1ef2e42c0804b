SPECIFICATION Spec
CONSTANT Missing = 1
INVARIANT Agreement
INVARIANT AllBound
CHECK_DEADLOCK FALSE
