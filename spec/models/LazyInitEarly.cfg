SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Entries = 2
 Publish = "early"
INVARIANT FullTable
CHECK_DEADLOCK FALSE
