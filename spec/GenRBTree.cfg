SPECIFICATION SpecG
CONSTANT N = 7
VIEW View
ACTION_CONSTRAINT Emit
