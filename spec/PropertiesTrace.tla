-------------------------- MODULE PropertiesTrace --------------------------
EXTENDS TraceBase, Properties
VARIABLES tr, l, names, av, over, prefix, vals, cap
vars == <<tr, l, names, av, over, prefix, vals, cap>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
KeepP == UNCHANGED <<names, av, over, prefix>>
KeepV == UNCHANGED <<vals, cap>>
NoOver == <<>>
Init == /\ tr \in 1..NTraces /\ l = 1 /\ names = <<>> /\ av = <<>> /\ over = <<>> /\ prefix = 0 /\ vals = <<>> /\ cap = -1
(* e.items: what is available, in order; e.out: names which are still held *)
Make ==
  /\ Take /\ e.e = "create"
  /\ IF e.ok = 0
     THEN /\ e.out = 0 /\ (e.fired = 1 \/ NoneFound(e.names, e.mode, e.str)) /\ av' = <<>>
     ELSE LET want == Required(e.names, e.mode, e.wanted, e.str) IN
          /\ ~NoneFound(e.names, e.mode, e.str)
          /\ Len(e.items) = Cardinality(want)
          /\ {e.items[i].idx : i \in 1..Len(e.items)} = want
          /\ \A i \in 1..Len(e.items) : e.items[i].name = e.names[e.items[i].idx + 1] /\ e.items[i].delay = 0
          /\ Sorted([i \in 1..Len(e.items) |-> e.items[i].name])
          (* the properties which are evidence for it; missing when they could not be allocated *)
          /\ Cardinality({i \in 1..Len(e.items) : e.items[i].noev = 1}) = (IF e.fired = 1 THEN 1 ELSE 0)
          /\ \A i \in 1..Len(e.items) : e.items[i].noev = 0 => e.items[i].ev = e.evidence[e.items[i].idx + 1]
          /\ e.out = Len(e.items)
          /\ av' = [i \in 1..Len(e.items) |-> [name |-> e.items[i].name, idx |-> e.items[i].idx]]
  /\ names' = e.names /\ over' = <<>> /\ UNCHANGED prefix /\ KeepV
Freed == Take /\ e.e = "free" /\ e.out = 0 /\ av' = <<>> /\ over' = <<>> /\ UNCHANGED <<names, prefix>> /\ KeepV
ByName == /\ Take /\ e.e = "byname" /\ e.ri = RequiredIndex(av, e.name) /\ e.pi = PropertyIndex(av, RequiredIndex(av, e.name))
          /\ KeepP /\ KeepV
ByIndex == /\ Take /\ e.e = "byindex" /\ e.pi = PropertyIndex(av, e.i)
           /\ (e.i >= 0 /\ e.i < Len(av) => e.name = av[e.i + 1].name) /\ KeepP /\ KeepV
SetHeader == Take /\ e.e = "setheader" /\ e.r = (IF \E i \in 1..Len(av) : StartsText(av[i].name, SetHeaderText) THEN 1 ELSE 0) /\ KeepP /\ KeepV
(* ---- overrides *)
Can == /\ Take /\ e.e = "overridable"
       /\ over' = SelectSeq([i \in 1..Len(av) |-> i - 1], LAMBDA i : e.filter[i + 1] = 1)
       /\ e.ok = (IF over' = <<>> \/ e.fired = 1 THEN 0 ELSE 1)
       /\ (e.ok = 1 => e.items = over') /\ prefix' = e.prefix /\ UNCHANGED <<names, av>> /\ KeepV
NewValues == Take /\ e.e = "values" /\ e.ok = (IF e.fired = 1 THEN 0 ELSE 1) /\ cap' = (IF e.ok = 1 THEN e.cap ELSE -1) /\ vals' = <<>> /\ KeepP
\* In any order; no two values are of the same property.
Pairs(q) == {<<q[i].idx, q[i].value>> : i \in 1..Len(q)}
Same(q) == Len(q) = Len(vals') /\ Pairs(q) = Pairs(vals')
Add == /\ Take /\ e.e = "add"
       /\ IF e.fired = 1
          THEN e.ok = 0 /\ vals' = Dropped(vals, e.idx)
          ELSE /\ vals' = Added(vals, cap, e.idx, e.value)
               /\ e.ok = (IF e.idx >= 0 /\ ~Full(vals, cap) THEN 1 ELSE 0)
       /\ Same(e.values) /\ UNCHANGED cap /\ KeepP
RECURSIVE Ext(_, _, _)
(* the values after all of the evidence and the number of pairs looked at *)
Ext(q, v, n) ==
  IF q = <<>> THEN [v |-> v, n |-> n]
  ELSE LET i == Overridden(av, over, prefix, q[1].field)
           w == Added(v, cap, i, q[1].value)
       IN IF Full(w, cap) THEN [v |-> w, n |-> n + 1] ELSE Ext(Tail(q), w, n + 1)
Extract == /\ Take /\ e.e = "extract"
           /\ \E r \in {IF e.none = 1 THEN [v |-> vals, n |-> 0] ELSE Ext(SelectSeq(e.evidence, QueryOrCookie), vals, 0)} :
              vals' = r.v /\ e.count = r.n /\ Same(e.values)
           /\ UNCHANGED cap /\ KeepP
Has == /\ Take /\ e.e = "has"
       /\ LET k == PlaceOf(vals, e.idx) IN
          /\ e.has = (IF k = 0 THEN 0 ELSE 1) /\ e.found = e.has
          /\ (k # 0 => e.value = vals[k].value /\ e.size = Len(vals[k].value) + 1)
          /\ e.listed = (IF k = 0 \/ e.room = 0 THEN <<>> ELSE <<vals[k].value>>)
       /\ KeepP /\ KeepV
Reset == Take /\ e.e = "reset" /\ vals' = <<>> /\ Same(e.values) /\ UNCHANGED cap /\ KeepP
Overriding == /\ Take /\ e.e = "overriding"
              /\ LET n == av[e.i + 1].name IN
                 e.r = FirstIndex(av, LAMBDA a : Len(a.name) > Len(n) /\ Starts(a.name, n)) - 1
              /\ KeepP /\ KeepV
(* the numbers in the ProfileIds evidence, those which are too large are skipped *)
Numbers(s) == Pieces(s, (0..255) \ (48..57))
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Biggest == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
Fits(s) == LET z == NoZeros(s) IN Len(z) < 10 \/ (Len(z) = 10 /\ OrderFrom(z, Biggest, 1) <= 0)
ProfileIdsText == <<112, 114, 111, 102, 105, 108, 101, 105, 100, 115>>
IdsOf(p) == SelectSeq(Numbers(p.value), Fits)
RECURSIVE AllIds(_)
AllIds(q) == IF q = <<>> THEN <<>>
             ELSE (IF QueryOrCookie(q[1]) /\ SameText(Skipped(1, q[1].field), ProfileIdsText) THEN IdsOf(q[1]) ELSE <<>>) \o AllIds(Tail(q))
Profiles == /\ Take /\ e.e = "profileids"
            /\ \E q \in {AllIds(e.evidence)} :
               Len(q) = Len(e.ids) /\ \A i \in 1..Len(q) : NumberOf(NoZeros(q[i])) = e.ids[i]
            /\ KeepP /\ KeepV
End == Take /\ e.e = "end" /\ e.live = 0 /\ e.out = 0 /\ KeepP /\ KeepV
Next == Make \/ Freed \/ ByName \/ ByIndex \/ SetHeader \/ Can \/ NewValues \/ Add \/ Extract \/ Has \/ Reset \/ Overriding \/ Profiles \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
