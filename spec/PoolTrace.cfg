SPECIFICATION Spec
CONSTRAINT Constraint
INVARIANTS Exclusive NotAvailable
POSTCONDITION Report
