SPECIFICATION Spec
CONSTANTS
  N = 3
  Graphs <- Small
  MaxSteps = 2
  MaxPad = 1
  EmitLen = 9
INVARIANTS SameMeaning WellFormed
CHECK_DEADLOCK FALSE
