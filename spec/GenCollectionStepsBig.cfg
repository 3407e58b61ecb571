SPECIFICATION SpecG
CONSTANTS MaxOps = 0
 Slots = {0, 1, 2}
 Loadeds = {0, 1, 3}
 Caps = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
