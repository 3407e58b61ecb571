SPECIFICATION Spec
CONSTANTS
  Programs <- P
  Cap = 2
  LOCKED = TRUE
INVARIANTS Coherent PinnedNotListed UniqueKey CountsHeld Listed
