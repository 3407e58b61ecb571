SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Rs = {1, 2, 3}
 Kinds = {0, 1, 2, 3, 4}
 MaxOps = 4
 CARELESS = TRUE
INVARIANTS NeverFreedInUse Counted Over Kept
PROPERTIES PropsStay ActiveOnlyByLoad FreedStay
