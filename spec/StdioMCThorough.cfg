SPECIFICATION Spec
CONSTANTS K = 4
A = 5
INVARIANTS InputKept Possible Holds Passed Tail2 CompiledAll Known4
PROPERTIES Grows Confined Kept Final
CHECK_DEADLOCK FALSE
