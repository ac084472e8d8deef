CONSTANTS Procs = {1, 2} D = 2 Atomic = TRUE MaxEnv = 2 MaxRuns = 3
SPECIFICATION HSpec
INVARIANTS NeverPartial Answered Emit
CHECK_DEADLOCK FALSE
