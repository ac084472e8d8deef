CONSTANTS Sites = "light" MaxLen = 32 Alternate = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
