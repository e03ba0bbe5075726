SPECIFICATION Spec
CONSTANTS N = 4 K = 2
INVARIANT Ok
CHECK_DEADLOCK FALSE
