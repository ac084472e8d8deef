SPECIFICATION Spec
CONSTANT LMax = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
