SPECIFICATION Spec
CONSTANT N = 9
VIEW View
INVARIANT Inv
