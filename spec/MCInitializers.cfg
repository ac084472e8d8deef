SPECIFICATION Spec
CONSTANTS
  LMax = 3
  ML = 3
INVARIANTS FansAgree Balance Unreached Emit
CHECK_DEADLOCK FALSE
