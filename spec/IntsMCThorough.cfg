SPECIFICATION Spec
CONSTANTS
 Most = 60
 Base <- Base4
INVARIANTS Exact Unique
CHECK_DEADLOCK FALSE
