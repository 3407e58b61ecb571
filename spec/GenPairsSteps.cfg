SPECIFICATION Spec
CONSTANT NKeys = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InOrder
