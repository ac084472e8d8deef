SPECIFICATION Spec
CONSTANTS
  LMax = 1
INVARIANTS Symmetric SelfAddable NoBroadcast Emit
CHECK_DEADLOCK FALSE
