SPECIFICATION Spec
INVARIANT NoDeadlock
INVARIANT Sane
CHECK_DEADLOCK FALSE
