SPECIFICATION Spec
CONSTANTS
 Threads = {1,2,3}
 Calls = 2
 MaxFaults = 1
 Bugs = {}
INVARIANTS Synced
CHECK_DEADLOCK FALSE
