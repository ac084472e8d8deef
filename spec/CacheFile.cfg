CONSTANTS Procs = {1, 2} D = 2 Atomic = TRUE MaxEnv = 2 MaxRuns = 4
SPECIFICATION Spec
INVARIANTS TypeOK NeverPartial Answered OnlyConfigured
PROPERTY Terminates
CHECK_DEADLOCK FALSE
