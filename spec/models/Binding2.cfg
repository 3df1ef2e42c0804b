SPECIFICATION Spec
CONSTANT Missing = 2
INVARIANT Agreement
INVARIANT AllBound
CHECK_DEADLOCK FALSE
