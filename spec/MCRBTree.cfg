SPECIFICATION Spec
CONSTANT N = 7
VIEW View
INVARIANT Inv
