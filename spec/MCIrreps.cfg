SPECIFICATION Spec
CONSTANTS
  LMax = 2
  CheckL = 2
INVARIANTS Proper Orthogonal Homomorphism
CHECK_DEADLOCK FALSE
