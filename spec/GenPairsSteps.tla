---------------------------- MODULE GenPairsSteps ---------------------------
(* a shortest history to every transition of the evidence of the C++ class:   *)
(* pairs set, erased one by one, in a range and all, copies by construction   *)
(* and assignment, and the C structure made of it (given: it was made since   *)
(* the last change), for replay                                               *)
EXTENDS Wrappers, TLC, Json
CONSTANT NKeys
VARIABLES ev, given, hist
K(i) == PrefixNames[2] \o <<96 + i>>
Init == ev = <<>> /\ given = 0 /\ hist = <<>>
Did(x) == hist' = Append(hist, x)
Set == \E i \in 1..NKeys, v \in {1, 2} : ev' = WithPair(ev, K(i), v) /\ UNCHANGED given /\ Did(<<"=", i, v>>)
Erase == \E i \in 1..NKeys : KeyPlace(ev, K(i)) # 0 /\ ev' = SelectSeq(ev, LAMBDA p : p.key # K(i)) /\ given' = 0 /\ Did(<<"x", i>>)
Range == \E i, j \in 1..NKeys : i <= j /\ ev' = SelectSeq(ev, LAMBDA p : OrderFrom(p.key, K(i), 1) < 0 \/ OrderFrom(p.key, K(j), 1) >= 0) /\ given' = 0 /\ Did(<<"r", i, j>>)
Clear == ev' = <<>> /\ given' = 0 /\ Did(<<"c">>)
Copy == \E w \in {"y", "a"} : ev' = ev /\ given' = 0 /\ Did(<<w>>)
Give == ev' = ev /\ given' = 1 /\ Did(<<"g">>)
Next == Set \/ Erase \/ Range \/ Clear \/ Copy \/ Give
Spec == Init /\ [][Next]_<<ev, given, hist>>
View == <<ev, given>>
InOrder == \A i, j \in 1..Len(ev) : i < j => OrderFrom(ev[i].key, ev[j].key, 1) < 0
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
