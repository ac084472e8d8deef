INIT TInit
NEXT TraceNext
CONSTANTS
  N <- tN
  MaxLen <- tMaxLen
CHECK_DEADLOCK FALSE
