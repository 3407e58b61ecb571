SPECIFICATION SpecG
CONSTANTS MaxPath = 60
 Some <- Contents
VIEW View
ACTION_CONSTRAINT Emit
