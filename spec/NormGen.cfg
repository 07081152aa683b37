SPECIFICATION Spec
INVARIANT Sanity
CHECK_DEADLOCK FALSE
