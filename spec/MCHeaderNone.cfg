SPECIFICATION Spec
CONSTANT MaxLen = 12
INVARIANT Never
