SPECIFICATION Spec
CONSTRAINT Constraint
INVARIANT NeverFreedInUse
POSTCONDITION Report
