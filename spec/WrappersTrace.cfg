SPECIFICATION Spec
CONSTRAINT Constraint
POSTCONDITION Report
