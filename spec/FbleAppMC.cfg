SPECIFICATION Spec
CONSTANTS T = 4
N <- Ns
E = 2
R = 2
Depth = 2
INVARIANTS InOrder Ticks NotEarly
PROPERTIES Delivered Every
CHECK_DEADLOCK FALSE
