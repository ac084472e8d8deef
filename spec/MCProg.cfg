SPECIFICATION Spec
CONSTANTS
  LMax = 2
  FinalL = 2
  MaxLen = 3
  EmitLen = 3
  Modes = {"dense", "act", "change", "add", "tdense"}
INVARIANTS OccupiedSlotsExist ProperOnly DesignInv ChangeBack Emit
CHECK_DEADLOCK FALSE
