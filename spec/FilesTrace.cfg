SPECIFICATION Spec
CONSTRAINT Constraint
POSTCONDITION Report
CONSTANT MaxPath = 4096
