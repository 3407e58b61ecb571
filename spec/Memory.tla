------------------------------- MODULE Memory -------------------------------
(* The tracking of allocations: blocks maps each block which was allocated and  *)
(* not freed since the last reset to what it counts for; the total is their sum *)
(* and the peak the greatest total there was since the reset.                   *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES blocks, peak, on
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Total(b) == SumOf(b, DOMAIN b)
Greater(a, b) == IF a > b THEN a ELSE b
With(b, s, n) == [x \in DOMAIN b \cup {s} |-> IF x = s THEN n ELSE b[x]]
Without(b, s) == [x \in DOMAIN b \ {s} |-> b[x]]
(* an aligned allocation may be larger than what was asked for *)
Counts(size, align) == IF align = 0 THEN {size} ELSE size..(size + align - 1)
Alloc(s, size, align, n) == /\ on /\ n \in Counts(size, align) /\ blocks' = With(blocks, s, n)
                            /\ peak' = Greater(peak, Total(blocks')) /\ UNCHANGED on
Failed == UNCHANGED <<blocks, peak, on>>
(* a block which is not tracked (any more) counts for nothing *)
Release(s) == blocks' = (IF on THEN Without(blocks, s) ELSE blocks) /\ UNCHANGED <<peak, on>>
Forget(o) == blocks' = <<>> /\ peak' = 0 /\ on' = o
Bounded == Total(blocks) <= peak
=============================================================================
