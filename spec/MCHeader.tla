----------------------------- MODULE MCHeader -----------------------------
(* Header.tla: whatever the bytes, an item given is within them, and items do *)
(* not overlap.                                                               *)
EXTENDS Header, FiniteSets
CONSTANT MaxLen
VARIABLE c
Bytes == {0, 1, 2, 5, 255}
Init == c = [b |-> <<>>, at |-> 0, es |-> 0, isCount |-> 0]
Next == c.es = 0 /\ \E n \in 0..MaxLen, w \in [1..4 -> Bytes], at \in {0, 1}, es \in 1..3, k \in {0, 1} :
          LET all == IF at = 0 THEN w ELSE <<7>> \o w IN
          c' = [b |-> IF n < Len(all) THEN SubSeq(all, 1, n) ELSE all \o [i \in 1..(n - Len(all)) |-> i], at |-> at, es |-> es, isCount |-> k]
Spec == Init /\ [][Next]_c
Inside == Fits(c) => \A k \in 0..(Count(c) - 1) : There(c, k * Width(c), Width(c)) /\ Base(c) + (k + 1) * Width(c) <= Base(c) + Claimed(c)
Whole == Fits(c) => Base(c) + Claimed(c) <= Len(c.b)
Short == (Len(c.b) < c.at + 4) => ~Fits(c)
Wide == Fits(c) /\ Count(c) > 0 => Width(c) >= c.es
Apart == Fits(c) => \A j, k \in 0..(Count(c) - 1) : j < k => j * Width(c) + Width(c) <= k * Width(c)
Never == ~Fits(c)
=============================================================================
