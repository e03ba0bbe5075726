SPECIFICATION Spec
CONSTANTS Length = 10
 Max = 3
INVARIANT Adds
CHECK_DEADLOCK FALSE
