----------------------------- MODULE GenRBTree -----------------------------
(* a shortest history to every transition of MCRBTree, for replay             *)
EXTENDS MCRBTree, TLC, Json
VARIABLE hist
InitG == Init /\ hist = <<>>
Add == \E k \in (1..N) \ m : T' = Insert(T, k) /\ m' = m \cup {k} /\ hist' = Append(hist, k)
Cut == \E k \in m : T' = Delete(T, k) /\ m' = m \ {k} /\ hist' = Append(hist, -k)
SpecG == InitG /\ [][Add \/ Cut]_<<vars, hist>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
