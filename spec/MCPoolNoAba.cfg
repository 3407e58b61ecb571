SPECIFICATION Spec
CONSTANTS
  Programs <- P
  Size = 3
  ABAMOD = 1
INVARIANTS Exclusive Conserved
