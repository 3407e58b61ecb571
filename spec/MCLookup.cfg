SPECIFICATION Spec
INVARIANTS PropertyFound ValueFound Address
