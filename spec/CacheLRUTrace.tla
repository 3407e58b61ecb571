--------------------------- MODULE CacheLRUTrace ---------------------------
EXTENDS TraceBase, CacheLRU
VARIABLES tr, l, s
vars == <<tr, l, s>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ s = [conc |-> 0]
Key == <<e.lo, e.hi>>
Create == /\ Take /\ e.e = "create"
          /\ e.ok = IF CreateOk(e.cap, e.conc) THEN 1 ELSE 0
          /\ s' = IF e.ok = 1 THEN NewCache(e.cap, e.conc) ELSE s
Get == /\ Take /\ e.e = "get"
       /\ \E o \in Gets(s, Key, e.fail) :
            /\ e.loads = o.load /\ e.lk = 1 /\ e.ok = o.ok /\ e.same = o.same /\ e.other = 0 /\ e.corrupt = 0
            /\ e.hits = o.next.hits /\ e.misses = o.next.misses
            /\ e.st = (IF o.load = 1 /\ e.fail = 1 THEN 1 ELSE 0)
            /\ s' = o.next
Rel == Take /\ e.e = "rel" /\ IsHeld(s, Key) /\ s' = Released(s, Key)
End == Take /\ e.e = "end" /\ e.live = 0 /\ UNCHANGED s
Next == Create \/ Get \/ Rel \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
