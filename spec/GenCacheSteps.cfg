SPECIFICATION Spec
CONSTANTS NKeys = 5 Cap = 3
VIEW View
ACTION_CONSTRAINT Emit
