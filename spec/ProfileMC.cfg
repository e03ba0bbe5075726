SPECIFICATION Spec
CONSTANTS Length = 9
 Max = 3
INVARIANT Adds
CHECK_DEADLOCK FALSE
