SPECIFICATION GSpec
CONSTANTS
  N <- mcN
  MaxLen <- mcMaxLen
INVARIANTS RoundTrip ImpliedRoundTrip SumAgrees Emit
CHECK_DEADLOCK FALSE
