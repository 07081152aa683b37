SPECIFICATION Spec
INVARIANT Balanced
CHECK_DEADLOCK FALSE
