SPECIFICATION Spec
CONSTANTS
  ML = 2
  MaxParts = 3
  MaxMult = 2
INVARIANTS NoOverrun Complete Count OneToOne Traces NotStuck Emit
CHECK_DEADLOCK FALSE
