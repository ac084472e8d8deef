SPECIFICATION Spec
CONSTANTS
  LMax = 4
  InL = 2
  BasisL = 2
  OutL = 3
INVARIANTS Typed DotIsComplete KeepsInput Emit
CHECK_DEADLOCK FALSE
