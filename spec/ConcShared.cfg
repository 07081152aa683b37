SPECIFICATION CSpec
CONSTANTS Procs = 2  Steps = 2  Shared = TRUE
CONSTRAINT Bound
INVARIANT Sequential
CHECK_DEADLOCK FALSE
