SPECIFICATION Spec
CONSTANTS Side = 3 Gens = 4
INVARIANTS NeverLoses OneWinner BestExists Symmetric Grows
CHECK_DEADLOCK FALSE
