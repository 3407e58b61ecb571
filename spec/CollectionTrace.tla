-------------------------- MODULE CollectionTrace --------------------------
EXTENDS TraceBase, Collection
VARIABLES tr, l, s
vars == <<tr, l, s>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
None == [none |-> TRUE]
Init == tr \in 1..NTraces /\ l = 1 /\ s = None
Handles(x) == IF x.d.pool > x.holding THEN x.d.pool - x.holding ELSE 0
(* in every state: what is held is intact, and no handle of the pool is lost *)
Kept(x) == e.bad = 0 /\ e.handles = Handles(x)
Create ==
  /\ Take /\ e.e = "create" /\ s = None
  /\ LET d == [kind |-> e.kind, src |-> e.src, n |-> e.n, size |-> e.size, loaded |-> e.loaded, cap |-> e.cap, conc |-> e.conc,
               pool |-> e.pool, avail |-> e.avail, offs |-> e.offs, items |-> e.items] IN
     /\ e.ok = IF e.fired = 0 /\ MayCreate(d) THEN 1 ELSE 0
     /\ e.ok = 1 => (e.src # "only" => e.pos = 0) /\ (e.kind = "f" => e.count = e.n)
     /\ e.handles = e.pool
     /\ s' = IF e.ok = 1 THEN New(d) ELSE None
Get ==
  /\ Take /\ e.e = "get" /\ s.slots[e.s] = <<>>
  /\ \E o \in GetOutcomes(s, e.key, e.fired, e.fault) :
       /\ e.ok = o.ok /\ e.st \in o.sts /\ e.same = 1
       /\ e.fired = 1 => o.io /\ o.ok = 0
       /\ o.ok = 1 => e.b = Value(s.d, ItemOf(s.d, e.key))
       /\ s' = IF o.ok = 1 THEN Pin(o.next, e.s, e.key, o.cached) ELSE o.next
  /\ Kept(s')
Rel == /\ Take /\ e.e = "rel" /\ s.slots[e.s] # <<>> /\ s.slots[e.s][1] = e.key /\ e.good = 1
       /\ s' = Unpin(s, e.s) /\ Kept(s')
GetInt == /\ Take /\ e.e = "int"
       /\ \E o \in GetOutcomes(s, e.key, e.fired, e.fault) :
            /\ e.st \in o.sts
            /\ e.fired = 1 => o.io /\ o.ok = 0
            /\ e.v = IF o.ok = 1 THEN IntOf(Value(s.d, ItemOf(s.d, e.key))) ELSE 0
            /\ s' = Transient(o, e.key)
       /\ Kept(s')
(* A search gives the index whose value is sought or -1. Which items it looks  *)
(* at on the way is its own business: it may fail only when one of the items  *)
(* between the bounds can't be got. (With a cache the script has no failing   *)
(* reads, so that what else is in the cache does not show.)                   *)
Target == { k \in e.lo..e.hi : k < s.d.n /\ IntOf(Value(s.d, k + 1)) = e.target }
Failures == UNION { UNION { IF o.ok = 0 THEN o.sts ELSE {} : o \in GetOutcomes(s, k, 0, "-") } : k \in e.lo..e.hi }
SearchRight ==
  /\ e.st = "ok" /\ e.cmp = 0
  /\ IF Target = {} THEN e.res = -1 /\ UNCHANGED s
     ELSE /\ e.res \in Target /\ e.b = Value(s.d, e.res + 1)
          /\ \E o \in GetOutcomes(s, e.res, 0, "-") : o.ok = 1 /\ s' = Pin(o.next, e.s, e.res, o.cached)
Search ==
  /\ Take /\ e.e = "search" /\ s.slots[e.s] = <<>> /\ e.fired = 0
  /\ \/ SearchRight
     \/ e.cmp = 1 /\ e.st = "corrupt" /\ UNCHANGED s
     \/ e.st \in Failures \ {"ok"} /\ UNCHANGED s
  /\ Kept(s')
SearchFault ==
  /\ Take /\ e.e = "search" /\ e.fired = 1 /\ s.second # "cache"
  /\ e.st = FaultStatus(e.fault) /\ UNCHANGED s /\ Kept(s)
Hold == /\ Take /\ e.e = "hold"
        /\ e.got = IF e.n > Handles(s) THEN Handles(s) ELSE e.n
        /\ s' = [s EXCEPT !.holding = @ + e.got] /\ Kept(s')
Unhold == Take /\ e.e = "unhold" /\ s' = [s EXCEPT !.holding = 0] /\ Kept(s')
End == Take /\ e.e = "end" /\ e.live = 0 /\ e.open = 0 /\ s' = None
Next == Create \/ Get \/ Rel \/ GetInt \/ Search \/ SearchFault \/ Hold \/ Unhold \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
