SPECIFICATION SpecG
CONSTANTS Blocks = {1, 2, 3, 4}
 Sizes = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bounded Nothing OffIsEmpty
