SPECIFICATION Spec
CONSTANTS
  Programs <- P
  Size = 3
  ABAMOD = 100
INVARIANTS Exclusive Conserved
