SPECIFICATION Spec
CONSTANTS NameLen = 2
 Pairs = 2
INVARIANT NeverPseudo
