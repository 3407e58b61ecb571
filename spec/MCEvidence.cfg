SPECIFICATION Spec
CONSTANTS NameLen = 2
 Pairs = 2
INVARIANTS Once AllThere OnlyThose AnyCase Whole NotGiven Smaller Iterated
