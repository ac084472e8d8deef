SPECIFICATION Spec
CONSTANTS
  ML = 2
INVARIANTS VanishBeyond OriginScalar ScalarPart Length_ Arity RejectsOnly Emit
CHECK_DEADLOCK FALSE
