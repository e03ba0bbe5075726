SPECIFICATION Spec
CONSTANT MaxSteps = 6
INVARIANTS TypeOK NoVacuous LiveOK RegsOK FramesOK
PROPERTIES NoResurrection Immutable
CHECK_DEADLOCK FALSE
