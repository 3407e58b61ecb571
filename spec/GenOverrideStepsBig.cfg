SPECIFICATION Spec
CONSTANTS MaxCap = 4
 Props = {0, 1, 2, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneEach Fits
