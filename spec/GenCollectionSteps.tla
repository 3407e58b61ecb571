------------------------- MODULE GenCollectionSteps -------------------------
(* a shortest history to every transition of MCCollection for replay; the     *)
(* first element is the configuration                                         *)
EXTENDS MCCollection, TLC, Json
VARIABLE hist
View == <<s.d, s.holding, s.slots, IF s.second = "cache" THEN LET sh == s.cache.shards[0] IN
           <<sh.used, sh.lru, [k \in {CacheKey(j) : j \in -1..3} |-> Cardinality({i \in 1..Len(sh.held) : sh.held[i] = k})]>> ELSE <<>> >>
InitG == Init /\ hist = << <<s.d.kind, s.d.loaded, s.d.cap, s.d.avail>> >>
GetG == \E key \in 0..3, slot \in Slots, f \in {0, 1} :
         /\ s.slots[slot] = <<>> /\ \A other \in Slots : other < slot => s.slots[other] # <<>>
         /\ \E o \in GetOutcomes(s, key, f, "r") : s' = IF o.ok = 1 THEN Pin(o.next, slot, key, o.cached) ELSE o.next
         /\ hist' = Append(hist, <<"g", slot, key, f>>)
RelG == \E slot \in Slots : s.slots[slot] # <<>> /\ s' = Unpin(s, slot) /\ hist' = Append(hist, <<"r", slot>>)
HoldG == s' = [s EXCEPT !.holding = 1 - @] /\ hist' = Append(hist, <<IF s.holding = 0 THEN "H" ELSE "h">>)
SpecG == InitG /\ [][(GetG \/ RelG \/ HoldG) /\ UNCHANGED n]_<<vars, hist>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
