---- MODULE GenCacheSteps ----
(* a shortest history to every transition of CacheLRU with one shard, few     *)
(* keys, and each held at most twice, for replay                              *)
EXTENDS CacheLRU, TLC, Json
CONSTANTS NKeys, Cap
Keys == {<<i, 0>> : i \in 1..NKeys}
VARIABLES s, hist
sh == s.shards[0]
Holds(x, k) == Cardinality({j \in 1..Len(x.held) : x.held[j] = k})
View == <<sh.used, sh.lru, [k \in Keys |-> Holds(sh, k)]>>
Init == s = NewCache(Cap, 1) /\ hist = <<>>
Get == \E k \in {y \in Keys : Holds(sh, y) < 2}, f \in {0, 1} : \E o \in Gets(s, k, f) :
         s' = o.next /\ hist' = Append(hist, <<k[1], f>>)
Rel == \E k \in Keys : IsHeld(s, k) /\ s' = Released(s, k) /\ hist' = Append(hist, <<k[1], 2>>)
Spec == Init /\ [][Get \/ Rel]_<<s, hist>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
====
