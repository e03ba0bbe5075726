SPECIFICATION Spec
CONSTANTS K = 3
A = 4
INVARIANTS InputKept Possible Holds Passed Tail2 CompiledAll Known4
PROPERTIES Grows Confined Kept Final
CHECK_DEADLOCK FALSE
