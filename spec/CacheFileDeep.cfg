CONSTANTS Procs = {1, 2, 3} D = 2 Atomic = TRUE MaxEnv = 2 MaxRuns = 5
SPECIFICATION Spec
INVARIANTS TypeOK NeverPartial Answered OnlyConfigured
CHECK_DEADLOCK FALSE
