SPECIFICATION Spec
CONSTRAINT Constraint
POSTCONDITION Report
INVARIANT NeverFreedInUse
