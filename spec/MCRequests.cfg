SPECIFICATION Spec
INVARIANTS Classes HasResult Emit
CHECK_DEADLOCK FALSE
