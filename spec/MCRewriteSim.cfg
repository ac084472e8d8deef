SPECIFICATION Spec
CONSTANTS
  N = 4
  Graphs <- Large
  MaxSteps = 3
  MaxPad = 2
  EmitLen = 3
INVARIANTS SameMeaning WellFormed Emit
CHECK_DEADLOCK FALSE
