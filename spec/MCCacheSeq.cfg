CONSTANTS Procs = {1} D = 2 Atomic = TRUE MaxEnv = 0 MaxRuns = 3
SPECIFICATION HSpec
INVARIANTS NeverPartial Answered Emit
CHECK_DEADLOCK FALSE
