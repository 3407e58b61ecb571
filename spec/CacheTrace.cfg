SPECIFICATION Spec
CONSTRAINT Constraint
INVARIANT Unique
POSTCONDITION Report
