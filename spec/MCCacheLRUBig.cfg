SPECIFICATION Spec
CONSTANTS NKeys = 4 Keys <- MCKeys Cap = 5 Conc = 2 MaxOps = 8
INVARIANT Inv
PROPERTY StaysHeld
