SPECIFICATION Spec
CONSTANTS NameLen = 3
 Pairs = 3
INVARIANTS Once AllThere OnlyThose AnyCase Whole NotGiven Smaller Iterated
