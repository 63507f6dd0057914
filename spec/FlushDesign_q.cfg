SPECIFICATION Spec
CONSTANTS
 Threads = {1,2}
 Calls = 2
 MaxFaults = 1
 Bugs = {}
INVARIANTS Synced
PROPERTIES Done
CHECK_DEADLOCK FALSE
