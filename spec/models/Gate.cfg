SPECIFICATION Spec
CONSTANT NFunctions = 28
INVARIANT OnlyAwareReachTheBody
CHECK_DEADLOCK FALSE
