SPECIFICATION Spec
CONSTANTS
  Programs <- P
  Cap = 2
  LOCKED = FALSE
INVARIANTS Coherent PinnedNotListed UniqueKey CountsHeld Listed
