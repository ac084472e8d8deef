CONSTANTS Procs = {1, 2} D = 2 Atomic = FALSE MaxEnv = 1 MaxRuns = 2
SPECIFICATION Spec
INVARIANTS TypeOK NeverPartial Answered OnlyConfigured
CHECK_DEADLOCK FALSE
