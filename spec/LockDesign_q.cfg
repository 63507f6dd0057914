SPECIFICATION Spec
CONSTANTS
 Threads = {1,2}
 MaxCalls = 1
 Kinds = {"get","set","setc","split","merge","stats","flush","list","list2","iter","clear","clear2"}
 Bugs = {}
INVARIANTS Exclusive Released
