------------------------------ MODULE Lookup ------------------------------
(* The lookups of a data set d: its strings (bytes, with the final zero when    *)
(* they are text), values, properties, profiles and components.                 *)
EXTENDS Formats
None == -1
Kind(s) == IF s = <<>> THEN 0 ELSE IF s[1] = 1 THEN 1 ELSE IF s[1] = 2 THEN 2 ELSE 0
StrOk(d, i) == i >= 0 /\ i < Len(d.strings)
Str(d, i) == d.strings[i + 1]
TextIs(s, name) == Kind(s) = 0 /\ s = Append(name, 0)
(* a value is named by text, an address or a coordinate *)
Named(s, name, coord) ==
  CASE Kind(s) = 1 -> coord # <<>> /\ SubSeq(s, 2, 9) = coord
    [] Kind(s) = 2 -> (V4Ok(name) /\ From(s, 2) = V4Bytes(name)) \/ (V6Ok(name) /\ From(s, 2) = V6Bytes(name))
    [] OTHER -> TextIs(s, name)
PropertyNamed(d, name) == FirstIndex(d.props, LAMBDA p : StrOk(d, p.name) /\ TextIs(Str(d, p.name), name)) - 1
ValuesOf(p) == IF p.first < 0 THEN {} ELSE p.first..p.last
ValueNamed(d, p, name, coord) ==
  LET S == {v \in ValuesOf(p) : Named(Str(d, d.values[v + 1].name), name, coord)} IN IF S = {} THEN None ELSE Least(S)
\* Nothing is had by the id zero, which is that of an empty profile.
WithId(d, id) == IF id = 0 THEN -1 ELSE FirstIndex(d.profiles, LAMBDA p : p.id = id) - 1
ProfileValues(d, i, p) == SelectSeq(d.profiles[i + 1].values, LAMBDA v : v \in ValuesOf(p))
First(q, n) == IF n = 0 THEN q ELSE SubSeq(q, 1, Min2(n, Len(q)))
HasValue(p, v) == \E k \in 1..Len(p.values) : p.values[k] = v
ProfilesWith(d, v) == LET q == SelectSeq(d.order, LAMBDA i : HasValue(d.profiles[i + 1], v)) IN [k \in 1..Len(q) |-> d.profiles[q[k] + 1].id]
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================
