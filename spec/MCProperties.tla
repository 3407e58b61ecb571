---------------------------- MODULE MCProperties ----------------------------
(* Properties.tla: what is required is there once and in any case, and each   *)
(* override changes the value of its property only.                           *)
EXTENDS Properties, TLC
CONSTANT MaxAdds
VARIABLES names, str, vals, cap
vars == <<names, str, vals, cap>>
Upto(A, n) == UNION {[1..k -> A] : k \in 0..n}
Lists == {<<>>, << <<97>> >>, << <<97>>, <<98>> >>, << <<98>>, <<97, 98>>, <<97>> >>}
Init == /\ names \in Lists /\ str \in Upto({65, 97, 98, 44, 124}, 4) /\ vals = <<>> /\ cap \in (IF str = <<>> THEN 0..3 ELSE {0})
Next == /\ str = <<>> /\ Len(vals) + cap > 0 /\ UNCHANGED <<names, str, cap>> /\ TLCGet("level") <= MaxAdds
        /\ \E i \in -1..2, v \in {<<120>>, <<121>>} : vals' = Added(vals, cap, i, v) \/ vals' = Dropped(vals, i)
Spec == Init /\ [][Next]_vars
req == Required(names, "string", <<>>, str)
Asked(i) == \E k \in 1..Len(Pieces(str, NameSeps)) : SameText(Pieces(str, NameSeps)[k], names[i + 1])
Exact == str # <<>> => req = {i \in 0..(Len(names) - 1) : Asked(i)}
SameAsArray == str # <<>> /\ Pieces(str, NameSeps) # <<>> => Required(names, "array", Pieces(str, NameSeps), <<>>) = req
Cases == Required(names, "string", <<>>, Lower(str)) = req
EachOnce == \A i, j \in 1..Len(vals) : vals[i].idx = vals[j].idx => i = j
Fits == Len(vals) <= cap
OnlyIts == [][\A i \in 1..Len(vals) : \A j \in 1..Len(vals') : vals[i].idx = vals'[j].idx /\ vals[i].value # vals'[j].value =>
                \A k \in 1..Len(vals) : k # i => \E m \in 1..Len(vals') : vals'[m] = vals[k]]_vars
=============================================================================
