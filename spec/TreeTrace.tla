----------------------------- MODULE TreeTrace -----------------------------
(* The tree is an ordered map from keys to nodes: after each operation every  *)
(* key which was inserted and not deleted is found and no other is, the       *)
(* iteration visits each node once, and the structure is a                    *)
(* red black tree.                                                            *)
EXTENDS TraceBase, RBTree
VARIABLES tr, l, m
vars == <<tr, l, m>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ m = {}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Exactly(q, S) == Len(q) = Cardinality(S) /\ SetOf(q) = S
TreeOf(q, top) ==
  LET D == -1..Len(q)
      f(i, def) == [j \in D |-> IF j <= 0 THEN def ELSE q[j][i]]
  IN [c |-> f(2, 0), l |-> [f(3, 0) EXCEPT ![-1] = top], r |-> f(4, 0), p |-> f(5, 0)]
WellFormed(q) == \A i \in 1..Len(q) : q[i][3] \in 0..Len(q) /\ q[i][4] \in 0..Len(q) /\ q[i][5] \in -1..Len(q)
Good(n) ==
  /\ Exactly(e.found, n) /\ Exactly(e.order, n) /\ e.count = Cardinality(n)
  /\ Cardinality(n) >= LeastNodes(e.depth)
  /\ e.quiet = 0 =>
       LET q == e.nodes T == TreeOf(q, e.top) IN
       /\ WellFormed(q) /\ Len(q) = Cardinality(n)
       /\ e.depth <= 100
       /\ {q[i][1] : i \in 1..Len(q)} = n
       /\ Cardinality(Keys(T, e.top)) = Len(q)
       /\ RB(T, [i \in 1..Len(q) |-> q[i][1]], e.top)
Ins == Take /\ e.e = "ins" /\ e.k \notin m /\ m' = m \cup {e.k} /\ Good(m')
Del == Take /\ e.e = "del" /\ e.k \in m /\ m' = m \ {e.k} /\ Good(m')
Next == Ins \/ Del
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
