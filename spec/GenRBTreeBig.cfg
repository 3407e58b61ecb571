SPECIFICATION SpecG
CONSTANT N = 9
VIEW View
ACTION_CONSTRAINT Emit
