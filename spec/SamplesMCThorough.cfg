SPECIFICATION Spec
CONSTANTS Side = 4 Gens = 3
INVARIANTS NeverLoses OneWinner BestExists Symmetric Grows
CHECK_DEADLOCK FALSE
