SPECIFICATION Spec
CONSTANTS NKeys = 3 Keys <- MCKeys Cap = 2 Conc = 1 MaxOps = 7
INVARIANT Inv
PROPERTY StaysHeld
