CONSTANTS Sites = "heavy" MaxLen = 10 Alternate = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
