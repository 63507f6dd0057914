SPECIFICATION Spec
INVARIANT Debug
CHECK_DEADLOCK FALSE
