SPECIFICATION Spec
CONSTANTS
 t1 = t1 t2 = t2 t3 = t3
 Threads = {t1,t2,t3}
 MaxCalls = 1
 Kinds = {"get","set","setc","split","merge","stats","flush","list","list2","iter","clear","clear2"}
 Bugs = {}
SYMMETRY Perms
INVARIANTS Exclusive Released
