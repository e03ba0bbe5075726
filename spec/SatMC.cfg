SPECIFICATION Spec
CONSTANTS N = 2
K = 4
INVARIANTS Agree Learning PureLiteral Models Partial OneAnswer ReadBack PrintBack
CHECK_DEADLOCK FALSE
