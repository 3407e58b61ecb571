----------------------------- MODULE MCCacheLRU -----------------------------
EXTENDS CacheLRU
CONSTANTS Keys, Cap, Conc, MaxOps
CONSTANT NKeys
MCKeys == {<<i, 0>> : i \in 1..NKeys}
VARIABLES s, n, gets
vars == <<s, n, gets>>
Init == s = NewCache(Cap, Conc) /\ n = 0 /\ gets = 0
Get == \E k \in Keys, f \in {0, 1} : \E o \in Gets(s, k, f) : s' = o.next /\ gets' = gets + 1
Rel == \E k \in Keys : IsHeld(s, k) /\ s' = Released(s, k) /\ UNCHANGED gets
Next == n < MaxOps /\ n' = n + 1 /\ (Get \/ Rel)
Spec == Init /\ [][Next]_vars
Inv == Pinned(s) /\ NoDuplicates(s) /\ Accounted(s) /\ s.hits + s.misses = gets
(* a held entry is never taken *)
StaysHeld == [][\A k \in Keys : IsHeld(s, k) => IsHeld(s', k) \/ s' = Released(s, k)]_vars
=============================================================================
