SPECIFICATION Spec
INVARIANT Soundness
CHECK_DEADLOCK FALSE
