SPECIFICATION Spec
CONSTANTS T = 4
N <- Nt
E = 2
R = 3
Depth = 2
INVARIANTS InOrder Ticks NotEarly
PROPERTIES Delivered Every
CHECK_DEADLOCK FALSE
