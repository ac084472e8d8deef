SPECIFICATION Spec
INVARIANTS Independent ShapeKept Emit
CHECK_DEADLOCK FALSE
