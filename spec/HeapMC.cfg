SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANTS TypeOK NoVacuous LiveOK RegsOK FramesOK
PROPERTIES NoResurrection Immutable
CHECK_DEADLOCK FALSE
