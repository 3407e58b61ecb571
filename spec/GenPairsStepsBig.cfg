SPECIFICATION Spec
CONSTANT NKeys = 5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InOrder
