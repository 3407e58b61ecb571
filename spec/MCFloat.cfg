SPECIFICATION Spec
INVARIANTS Back Kinds
