SPECIFICATION Spec
CONSTANTS
  Programs <- P
  REUSE = FALSE
  RETRYFIX = FALSE
  EMPTYFIX = TRUE
  MaxH = 3
INVARIANTS NoNullHandle NeverFreedWhileHeld ActiveNotFreed OwnReleaseSafe FreedOnce NoLeak CountExact Installed
