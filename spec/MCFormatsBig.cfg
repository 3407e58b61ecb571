SPECIFICATION Spec
CONSTANT Few = FALSE
INVARIANTS Ip4 Ip6 Ends Limits Sizes NoEmptyDoc
