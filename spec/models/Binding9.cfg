SPECIFICATION Spec
CONSTANT Missing = 9
INVARIANT Agreement
INVARIANT AllBound
CHECK_DEADLOCK FALSE
