----------------------------- MODULE MCEvidence -----------------------------
(* What the headers and the pseudo evidence of Evidence.tla have to satisfy,  *)
(* for all small sets of names and all small evidence.                        *)
EXTENDS Evidence, TLC
CONSTANTS NameLen, Pairs
VARIABLES names, ev, order
vars == <<names, ev, order>>
Upto(A, n) == UNION {[1..k -> A] : k \in 0..n}
Letters == {65, 97, 98, Sep}
Field == {<<97>>, <<65>>, <<98>>, <<97, Sep, 98>>}
Bits == {HeaderBit, QueryBit}
Pair == {[prefix |-> p, field |-> f, value |-> v] : p \in Bits, f \in Field, v \in {<<>>, <<120>>, <<121>>}}
Orders == {<<>>, <<HeaderBit>>, <<QueryBit, HeaderBit>>}
Named(q) == [i \in 1..Len(q) |-> [name |-> q[i], id |-> i]]
Init == names = <<>> /\ ev = <<>> /\ order = <<>>
Next ==
  /\ names = <<>>
  /\ \/ names' \in {Named(q) : q \in Upto(Upto(Letters, NameLen), 2)} /\ ev' = <<>> /\ order' = <<QueryBit, HeaderBit>>
     \/ names' = Named(<< <<97, Sep, 98>>, <<98, Sep, 97, Sep, 97>> >>) /\ ev' \in Upto(Pair, Pairs) /\ order' \in Orders
Spec == Init /\ [][Next]_vars
hs == HeadersOf(names)
Once == \A i, j \in 1..Len(hs) : SameText(hs[i].name, hs[j].name) => i = j
AllThere == \A n \in 1..Len(names) : Segments(names[n].name) # <<>> =>
  /\ Known(hs, names[n].name)
  /\ \A k \in 1..Len(Segments(names[n].name)) : Known(hs, Segments(names[n].name)[k])
OnlyThose == \A i \in 1..Len(hs) : \E n \in 1..Len(names) :
  \/ hs[i].data = 1 /\ hs[i].name = names[n].name
  \/ hs[i].data = 0 /\ \E k \in 1..Len(Segments(names[n].name)) : Segments(names[n].name)[k] = hs[i].name
AnyCase == \A i \in 1..Len(hs) : HeaderIndex(hs, 0, Lower(hs[i].name)) = i - 1 /\ HeaderIndex(hs, 1, HttpPrefix \o hs[i].name) = i - 1
ps == PseudoEvidence(ev, hs, order, 99, 99)
(* every pseudo evidence is of one kind only, and of the first kind which has all of it *)
Whole == \A i \in 1..Len(ps) : LET segs == Segments(ps[i].field) IN
  /\ \E k \in 1..Len(hs) : hs[k].name = ps[i].field
  /\ Complete(ev, segs, ps[i].prefix)
  /\ ps[i].value = FullValue(ev, segs, ps[i].prefix)
  /\ \A j \in 1..Len(order) : order[j] = ps[i].prefix \/ (\E k \in 1..(j - 1) : order[k] = ps[i].prefix) \/ ~Complete(ev, segs, order[j]) \/ FullValue(ev, segs, order[j]) = <<>>
NotGiven == \A i \in 1..Len(ps) : \A k \in 1..Len(ev) : ev[k].field = ps[i].field => ev[k].prefix \notin {order[j] : j \in 1..Len(order)}
Smaller == \A n \in 1..2 : PseudoEvidence(ev, hs, order, 99, n) = SubSeq(ps, 1, Min2(n, Len(ps)))
Iterated == \A m \in {0, 1, 8, 9} : LET q == Visited(ev, ps, m, 0) IN
  /\ \A i \in 1..Len(q) : HasBit(m, q[i].prefix)
  /\ \A n \in 1..3 : Visited(ev, ps, m, n) = SubSeq(q, 1, Min2(n, Len(q)))
(* not all of it is about nothing: these have to fail *)
NeverPseudo == ps = <<>>
=============================================================================
