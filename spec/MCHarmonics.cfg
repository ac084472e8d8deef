SPECIFICATION Spec
CONSTANTS
  MaxL = 8
  ExactL = 3
  LMax = 3
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
