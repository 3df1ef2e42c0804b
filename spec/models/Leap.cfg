SPECIFICATION Spec
CONSTANTS First = 23556
          Last = 24600
INVARIANTS Closed Bounds HalfYears
PROPERTY Monotone
CHECK_DEADLOCK FALSE
