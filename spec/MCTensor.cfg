SPECIFICATION Spec
CONSTANTS
  LMax = 4
  InL = 2
  OutL = 3
INVARIANTS ReachIsUnion Typed Dropped Emit
CHECK_DEADLOCK FALSE
