SPECIFICATION Spec
CONSTANTS
  Programs <- P
  REUSE = FALSE
  RETRYFIX = TRUE
  EMPTYFIX = FALSE
  MaxH = 3
INVARIANTS NoNullHandle NeverFreedWhileHeld ActiveNotFreed OwnReleaseSafe FreedOnce NoLeak CountExact Installed
