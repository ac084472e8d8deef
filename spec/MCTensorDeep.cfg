SPECIFICATION Spec
CONSTANTS
  LMax = 4
  InL = 3
  OutL = 4
INVARIANTS ReachIsUnion Typed Dropped Emit
CHECK_DEADLOCK FALSE
