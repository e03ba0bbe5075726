SPECIFICATION Spec
CONSTANTS N = 3
K = 3
INVARIANTS Agree Learning PureLiteral Models Partial OneAnswer ReadBack PrintBack
CHECK_DEADLOCK FALSE
