SPECIFICATION Spec
CONSTANT Few = TRUE
INVARIANTS Ip4 Ip6 Ends Limits Sizes NoEmptyDoc
