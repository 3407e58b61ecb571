SPECIFICATION Spec
CONSTANTS NKeys = 6 Cap = 4
VIEW View
ACTION_CONSTRAINT Emit
