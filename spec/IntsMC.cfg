SPECIFICATION Spec
CONSTANTS
 Most = 20
 Base <- Base4
INVARIANTS Exact Unique
CHECK_DEADLOCK FALSE
