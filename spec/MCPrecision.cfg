SPECIFICATION Spec
INVARIANTS Lossless Decided Emit
CHECK_DEADLOCK FALSE
