------------------------------ MODULE MCRBTree ------------------------------
(* every history of inserts and deletes of the keys 1..N *)
EXTENDS RBTree
CONSTANT N
VARIABLES T, m
vars == <<T, m>>
Init == T = EmptyTree(N) /\ m = {}
Ins == \E k \in (1..N) \ m : T' = Insert(T, k) /\ m' = m \cup {k}
Del == \E k \in m : T' = Delete(T, k) /\ m' = m \ {k}
Next == Ins \/ Del
(* what is left in the fields of the empty node does not matter *)
View == <<[i \in m |-> <<T.c[i], T.l[i], T.r[i], T.p[i]>>], Top(T), m>>
Spec == Init /\ [][Next]_vars
Inv == /\ Keys(T, Top(T)) = m
       /\ RB(T, [i \in 1..N |-> i], Top(T))
       /\ Cardinality(m) >= LeastNodes(Height(T, Top(T)))
       /\ T.c[0] = 0
=============================================================================
