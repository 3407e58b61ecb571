SPECIFICATION Spec
CONSTANTS
  Programs <- P
  Size = 2
  ABAMOD = 100
INVARIANTS Exclusive Conserved
