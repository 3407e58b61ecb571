---- MODULE GenCacheLRU ----
(* behaviours of CacheLRU for replay against the code *)
EXTENDS CacheLRU, TLC, Json, IOUtils
CONSTANTS MaxOps
Shape == CHOOSE x \in {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 2>>, <<5, 2>>, <<9, 3>>, <<11, 3>>} : ToString(x[1]) = IOEnv.CAP
Cap == Shape[1]
Conc == Shape[2]
Keys == {<<i, 0>> : i \in -1..(2 * Cap)}
VARIABLES s, hist
Init == s = NewCache(Cap, Conc) /\ hist = <<>>
Get == \E k \in Keys, f \in (IF Len(hist) % 5 = 3 THEN {0, 1} ELSE {0}) : \E o \in Gets(s, k, f) :
         s' = o.next /\ hist' = Append(hist, [o |-> "g", lo |-> k[1], hi |-> k[2], f |-> f])
Rel == \E k \in Keys : IsHeld(s, k) /\ s' = Released(s, k) /\ hist' = Append(hist, [o |-> "r", lo |-> k[1], hi |-> k[2], f |-> 0])
Next == Len(hist) < MaxOps /\ (Get \/ Rel)
Spec == Init /\ [][Next]_<<s, hist>>
Emit == Len(hist) = MaxOps => PrintT("VFSCRIPT " \o ToJson(hist))
====
