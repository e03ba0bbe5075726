SPECIFICATION Spec
CONSTANTS N = 3 K = 2
INVARIANT Ok
PROPERTY Ends
CHECK_DEADLOCK FALSE
