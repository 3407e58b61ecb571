SPECIFICATION Spec
CONSTANT MaxAdds = 4
INVARIANTS Exact SameAsArray Cases EachOnce Fits
PROPERTY OnlyIts
