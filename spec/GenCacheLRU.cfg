SPECIFICATION Spec
CONSTANT MaxOps = 30
INVARIANT Emit
