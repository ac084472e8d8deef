SPECIFICATION Spec
CONSTANTS
  KMax = 9
  Step = 250
INVARIANTS Partition Bounded Monotone Symmetric Ends Consistent Emit
CHECK_DEADLOCK FALSE
