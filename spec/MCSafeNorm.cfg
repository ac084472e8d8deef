SPECIFICATION Spec
INVARIANTS ShapeOk TurnOk Emit
CHECK_DEADLOCK FALSE
