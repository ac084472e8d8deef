SPECIFICATION Spec
CONSTANTS
  LMax = 2
  FinalL = 2
  MaxLen = 2
  EmitLen = 2
  Modes = {"dense", "act", "change", "add", "tdense"}
INVARIANTS OccupiedSlotsExist ProperOnly DesignInv ChangeBack Emit
CHECK_DEADLOCK FALSE
