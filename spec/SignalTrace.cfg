SPECIFICATION Spec
CONSTRAINT Constraint
INVARIANT WaitTakesFlag
POSTCONDITION Report
