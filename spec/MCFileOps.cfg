SPECIFICATION Spec
CONSTANT MaxPath = 60
INVARIANTS OneOfEach Written Comparing
PROPERTY OnlyThat
