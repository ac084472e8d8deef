SPECIFICATION Spec
INVARIANTS Sorted Promise Stable Trace1 Emit
CHECK_DEADLOCK FALSE
