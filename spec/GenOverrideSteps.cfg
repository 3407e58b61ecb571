SPECIFICATION Spec
CONSTANTS MaxCap = 3
 Props = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneEach Fits
