---------------------------- MODULE LookupTrace ----------------------------
EXTENDS TraceBase, Lookup
VARIABLES tr, l, d
vars == <<tr, l, d>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ d = <<>>
Data == Take /\ e.e = "data" /\ d' = e
(* no item is held after an operation, and each was released to its collection *)
Clean == e.held = 0 /\ e.wrong = 0
(* what was asked for, with the status it has; or, after a fault, nothing and *)
(* the status of what failed                                                  *)
Gives(right, nothing, status) == /\ Clean
                                 /\ \/ right /\ e.st = status
                                    \/ e.fired = 1 /\ nothing /\ e.st # "ok"
Op(name) == Take /\ e.e = name /\ UNCHANGED d
ByName == Op("property") /\ Gives(e.i = PropertyNamed(d, e.name), e.i = None, "ok")
          /\ (e.i = None => e.null = 1)
ValueBy == Op("value") /\ Gives(e.i = ValueNamed(d, d.props[e.prop + 1], e.name, e.coord), e.i = None, "ok")
Profile(i) == IF i < 0 THEN <<>> ELSE <<d.profiles[i + 1]>>
ById == Op("byid") /\ Gives(e.profile = Profile(WithId(d, e.id)), e.profile = <<>>, IF e.id = 0 THEN "other" ELSE "ok")
Offset == Op("offset") /\ Gives(e.i = WithId(d, e.id), e.i = None, IF e.id = 0 THEN "other" ELSE "ok")
Within2(i, q) == i >= 0 /\ i < Len(q)
ByIndex == Op("byindex") /\ Gives(e.profile = (IF Within2(e.i, d.order) THEN Profile(d.order[e.i + 1]) ELSE <<>>), e.profile = <<>>,
                                  IF Within2(e.i, d.order) THEN "ok" ELSE "index")
Visited(q) == Gives(e.seen = First(q, e.stop), IsPrefix(e.seen, First(q, e.stop)), "ok") /\ e.count = Len(e.seen)
OfProfile == Op("profilevalues") /\ Visited(ProfileValues(d, e.i, d.props[e.prop + 1]))
OfValue == /\ Op("profiles")
           /\ LET p == PropertyNamed(d, e.name)
                  v == IF p = None THEN None ELSE ValueNamed(d, d.props[p + 1], e.value, <<>>)
              IN Visited(IF v = None THEN <<>> ELSE ProfilesWith(d, v))
Default == /\ Op("default")
           /\ LET c == d.comps[e.i + 1] ok == Within2(c.def, d.profiles) IN
              Gives(e.id = (IF ok THEN d.profiles[c.def + 1].id ELSE 0), e.id = 0, IF ok THEN "ok" ELSE "offset")
Pair == /\ Op("pair")
        /\ LET q == d.comps[e.i + 1].kv ok == e.x < Len(q) IN
           Gives(e.ok = (IF ok THEN 1 ELSE 0) /\ (ok => e.kv = q[e.x + 1]), FALSE, IF ok THEN "ok" ELSE "index")
TextOf(r) == CASE e.what = "name" -> r.name [] e.what = "desc" -> r.desc [] e.what = "cat" -> r.cat [] OTHER -> r.url
TextOp == /\ Op("text")
          /\ LET r == CASE e.of = "property" -> d.props[e.i + 1] [] e.of = "value" -> d.values[e.i + 1] [] OTHER -> d.comps[e.i + 1]
                 s == TextOf(r)
             IN Gives(e.s = (IF StrOk(d, s) THEN s ELSE None), e.s = None, IF StrOk(d, s) THEN "ok" ELSE "offset")
ListOp == /\ Op("list") /\ e.left = 0 /\ e.cap = 0 /\ e.during = Len(e.ids)
          /\ LET all == [i \in 1..Len(d.comps) |-> d.comps[i].id] IN Gives(e.ids = all, IsPrefix(e.ids, all), "ok")
StringsOp == /\ Op("strings") /\ e.left = 0 /\ e.got = e.want /\ e.during = Len(e.got) /\ e.ok = 1 - e.fired /\ Clean /\ e.st = "ok"
TypeOp == Op("type") /\ Gives(e.type = (IF Within2(e.i, d.props) THEN d.props[e.i + 1].type ELSE 0), e.type = 0, IF Within2(e.i, d.props) THEN "ok" ELSE "index")
Coordinate == /\ Op("coordinate")
              /\ LET s == Str(d, e.i) IN
                 Gives(e.b = (IF Kind(s) = 1 THEN SubSeq(s, 2, 9) ELSE <<0, 0, 0, 0, 0, 0, 0, 0>>), FALSE, IF Kind(s) = 1 THEN "ok" ELSE "corrupt")
End == Take /\ e.e = "end" /\ e.live = 0 /\ e.open = 0 /\ UNCHANGED d
Next == \/ Data \/ ByName \/ ValueBy \/ ById \/ Offset \/ ByIndex \/ OfProfile \/ OfValue \/ Default \/ Pair \/ TextOp \/ ListOp \/ StringsOp
        \/ TypeOp \/ Coordinate \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
