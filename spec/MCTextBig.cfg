SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Ordered Found Splits
