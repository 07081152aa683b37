SPECIFICATION CSpec
CONSTANTS Procs = 3  Steps = 3  Shared = FALSE
CONSTRAINT Bound
INVARIANT Sequential
CHECK_DEADLOCK FALSE
