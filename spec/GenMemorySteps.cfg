SPECIFICATION SpecG
CONSTANTS Blocks = {1, 2, 3}
 Sizes = {0, 1, 3}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bounded Nothing OffIsEmpty
