---------------------------- MODULE MCWrappers ----------------------------
(* Wrappers.tla: typed values of printed ones, and evidence in order *)
EXTENDS Wrappers, TLC
CONSTANT MaxPairs
VARIABLES n, ev, mask
vars == <<n, ev, mask>>
RECURSIVE Digits(_)
Digits(x) == IF x < 10 THEN <<48 + x>> ELSE Digits(x \div 10) \o <<48 + (x % 10)>>
Shown(x) == IF x < 0 THEN <<Minus>> \o Digits(0 - x) ELSE Digits(x)
Keys == {PrefixNames[1] \o <<97>>, PrefixNames[2] \o <<97>>, PrefixNames[3] \o <<98>>, PrefixNames[2], <<97>>}
Init == n = -12 /\ ev = <<>> /\ mask \in {-1, 8, 12, 31}
Next == \/ n < 120 /\ ev = <<>> /\ n' = n + 1 /\ UNCHANGED <<ev, mask>>
        \/ n = -12 /\ TLCGet("level") <= MaxPairs /\ UNCHANGED <<n, mask>> /\ \E k \in Keys, v \in {<<>>, <<120>>} : ev' = WithPair(ev, k, v)
Spec == Init /\ [][Next]_vars
Numbers == /\ AsInteger(Shown(n)) = n /\ AsInteger(<<32>> \o Shown(n) \o <<120>>) = n
           /\ AsMillionths(Shown(n)) = n * 1000000
           /\ n >= 0 => AsMillionths(Shown(n) \o <<Point, 53>>) = n * 1000000 + 500000
InOrder == \A i, j \in 1..Len(ev) : i < j => OrderFrom(ev[i].key, ev[j].key, 1) < 0
Latest == [][ev' # ev => \E k \in Keys : \A q \in Keys \ {k} : LET a == KeyPlace(ev, q) b == KeyPlace(ev', q) IN (a = 0 <=> b = 0) /\ (a # 0 => ev[a] = ev'[b])]_vars
given == GivenFrom(ev, mask, 31)
Given == /\ Len(given) = Len(Relevant(ev, mask))
         /\ \A i \in 1..Len(given) : /\ given[i].field # <<>>
              /\ \E k \in 1..Len(ev) : ev[k].key = NameOfPrefix(given[i].prefix) \o given[i].field /\ ev[k].value = given[i].value
Reasons == \A q \in {<<>>, <<Shown(n)>>, <<Shown(n), <<48>> >>} : \A t \in {"L", "S", "B", "I", "D"} :
             LET x == Typed(t, q) IN (x.has = 1 \/ x.reason \in {TooMany, Unknown}) /\ (Len(q) = 1 => x.has = 1) /\ (t = "L" => x.has = 1)
=============================================================================
