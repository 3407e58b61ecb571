SPECIFICATION Spec
CONSTANTS Blocks = {1, 2, 3, 4}
 Sizes = {0, 1, 3}
INVARIANTS Bounded Nothing OffIsEmpty
PROPERTIES PeakGrows PeakWasReached
