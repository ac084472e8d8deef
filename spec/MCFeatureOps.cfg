SPECIFICATION Spec
CONSTANTS
  LMax = 3
  FL = 2
  MaxLen = 2
INVARIANTS TypeOK WidenNarrow NarrowWiden ReflectTwice ReflectCommutes TurnCommutes FourTurns TurnReflect AddCommutes AddZero AddEqui Emit
CHECK_DEADLOCK FALSE
