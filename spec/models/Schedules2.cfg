SPECIFICATION Spec
CONSTANTS NThreads = 2
 Steps = 6
 MaxPreempt = 2
INVARIANT BoundedPreemption
CHECK_DEADLOCK FALSE
