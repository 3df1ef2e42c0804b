SPECIFICATION Spec
CONSTANTS NThreads = 3
 Steps = 3
 MaxPreempt = 2
INVARIANT BoundedPreemption
CHECK_DEADLOCK FALSE
