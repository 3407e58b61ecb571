SPECIFICATION Spec
CONSTANT MaxPairs = 4
INVARIANTS Numbers InOrder Given Reasons
PROPERTY Latest
