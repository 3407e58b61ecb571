---------------------------- MODULE MCCollection ----------------------------
(* Collection.tla: every history of gets, releases, taken file handles and    *)
(* faults on a collection of each configuration.                              *)
EXTENDS Collection
CONSTANTS MaxOps, Slots, Loadeds, Caps
VARIABLES s, n
vars == <<s, n>>
Items == << <<1>>, <<2>>, <<3>> >>
D(kind, loaded, cap, avail) ==
  [kind |-> kind, src |-> "file", n |-> 3, size |-> 1, loaded |-> loaded, cap |-> cap, conc |-> 1, pool |-> 1, avail |-> avail,
   offs |-> <<0, 1, 2>>, items |-> Items]
Init == n = 0 /\ \E k \in {"f", "v"}, m \in Loadeds, c \in Caps, a \in {2, 3} : MayCreate(D(k, m, c, a)) /\ s = New(D(k, m, c, a))
Get == \E key \in -1..3, slot \in Slots, f \in {0, 1}, fk \in {"a", "r"} :
         /\ s.slots[slot] = <<>>
         /\ \E o \in GetOutcomes(s, key, f, fk) : s' = IF o.ok = 1 THEN Pin(o.next, slot, key, o.cached) ELSE o.next
Rel == \E slot \in Slots : s.slots[slot] # <<>> /\ s' = Unpin(s, slot)
Hold == s' = [s EXCEPT !.holding = 1 - @]
Next == n < MaxOps /\ n' = n + 1 /\ (Get \/ Rel \/ Hold)
Spec == Init /\ [][Next]_vars
HeldBy(k) == Cardinality({x \in Slots : s.slots[x] # <<>> /\ s.slots[x][2] /\ s.slots[x][1] = k})
InCache(k) == LET q == s.cache.shards[0].held IN Cardinality({i \in 1..Len(q) : q[i] = CacheKey(k)})
(* what is held is in the cache as often as it is held, and is of an item there is *)
PinsMatch == s.second = "cache" => \A k \in -1..3 : HeldBy(k) = InCache(k)
OnlyItems == \A x \in Slots : s.slots[x] # <<>> => ItemOf(s.d, s.slots[x][1]) # 0
(* without a fault, with a handle and an entry to be had, and the bytes there, a get gives the item *)
NothingInTheWay(k) == /\ ItemOf(s.d, k) # 0 /\ EndOf(s.d, ItemOf(s.d, k)) <= s.d.avail /\ s.holding = 0
                      /\ s.second = "cache" => Cached(s.cache.shards[0], CacheKey(k)) \/ ~Full(s.cache, s.cache.shards[0])
Available == \A k \in -1..3 : NothingInTheWay(k) => \A o \in GetOutcomes(s, k, 0, "a") : o.ok = 1
OutOfRange == \A k \in {-1, 3} : \A o \in GetOutcomes(s, k, 0, "a") : o.ok = 0
FailuresSaySo == \A k \in -1..3, f \in {0, 1} : \A o \in GetOutcomes(s, k, f, "r") : o.ok = 0 => "ok" \notin o.sts /\ o.sts # {}
(* a get which fails leaves nothing taken *)
FailedTakesNothing == \A k \in -1..3, f \in {0, 1} : \A o \in GetOutcomes(s, k, f, "r") :
  (o.ok = 0 /\ s.second = "cache") => o.next.cache.shards[0].held = s.cache.shards[0].held /\ o.next.holding = s.holding
=============================================================================
