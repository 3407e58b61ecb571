------------------------------ MODULE MCLookup ------------------------------
(* Lookup.tla: what is found is what was asked for, the first of it, and      *)
(* nothing is not found which is there.                                       *)
EXTENDS Lookup, TLC
VARIABLES d, name
vars == <<d, name>>
T(s) == Append(s, 0)
Strings == << T(<<97>>), T(<<98>>), T(<<97, 98>>), <<2, 1, 2, 3, 4>>, <<1, 9, 9, 9, 9, 8, 8, 8, 8>> >>
Asked == {<<97>>, <<98>>, <<97, 98>>, <<>>, <<49, 46, 50, 46, 51, 46, 52>>, <<49, 46, 50>>}
Coord == <<9, 9, 9, 9, 8, 8, 8, 8>>
Init == d = <<>> /\ name = <<>>
Next == /\ d = <<>> /\ name' \in Asked
        /\ \E p \in [1..2 -> -1..5], v \in [1..3 -> 0..4], r \in {<<-1, -1>>, <<0, 2>>, <<1, 1>>} :
             d' = [strings |-> Strings, values |-> [i \in 1..3 |-> [name |-> v[i]]], props |-> [i \in 1..2 |-> [name |-> p[i], first |-> r[1], last |-> r[2]]]]
Spec == Init /\ [][Next]_vars
Ready == d # <<>>
PropertyFound == Ready => LET i == PropertyNamed(d, name) IN
  /\ i >= 0 => Str(d, d.props[i + 1].name) = T(name) /\ \A j \in 1..i : ~(StrOk(d, d.props[j].name) /\ Str(d, d.props[j].name) = T(name))
  /\ i < 0 => \A j \in 1..2 : d.props[j].name \in 0..4 => Str(d, d.props[j].name) # T(name)
ValueFound == Ready => \A p \in {d.props[1]}, c \in {<<>>, Coord} : LET v == ValueNamed(d, p, name, c) IN
  /\ v # None => v \in ValuesOf(p) /\ Named(Str(d, d.values[v + 1].name), name, c)
  /\ \A w \in ValuesOf(p) : Str(d, d.values[w + 1].name) = T(name) => v # None /\ v <= w
  /\ c = Coord => \A w \in ValuesOf(p) : d.values[w + 1].name = 4 => v # None /\ v <= w
Address == Ready /\ name = <<49, 46, 50, 46, 51, 46, 52>> => \A w \in ValuesOf(d.props[1]) : d.values[w + 1].name = 3 => ValueNamed(d, d.props[1], name, <<>>) # None
=============================================================================
