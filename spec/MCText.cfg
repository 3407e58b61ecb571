SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Ordered Found Splits
