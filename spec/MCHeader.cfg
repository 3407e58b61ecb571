SPECIFICATION Spec
CONSTANT MaxLen = 12
INVARIANTS Inside Whole Short Wide Apart
