SPECIFICATION Spec
CONSTANTS Threads <- ThreadNumbers
 Rs <- SetNumbers
CONSTRAINT Constraint
INVARIANT NeverFreedInUse
POSTCONDITION Report
