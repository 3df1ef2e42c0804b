SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Entries = 5
 Publish = "late"
INVARIANT FullTable
PROPERTY Finishes
CHECK_DEADLOCK FALSE
