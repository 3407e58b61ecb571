----------------------------- MODULE MCMemory -----------------------------
(* every history of allocations, failures, frees and resets of a few blocks *)
EXTENDS Memory
CONSTANTS Blocks, Sizes
Init == blocks = <<>> /\ peak = 0 /\ on = TRUE
Next == \/ \E s \in Blocks \ DOMAIN blocks, size \in Sizes, align \in {0, 2} : \E n \in Counts(size, align) : Alloc(s, size, align, n)
        \/ \E s \in Blocks : Release(s)
        \/ Failed
        \/ \E o \in BOOLEAN : Forget(o)
Spec == Init /\ [][Next]_<<blocks, peak, on>>
Nothing == DOMAIN blocks = {} => Total(blocks) = 0
OffIsEmpty == ~on => blocks = <<>> /\ peak = 0
PeakGrows == [][peak' >= peak \/ (peak' = 0 /\ blocks' = <<>>)]_<<blocks, peak, on>>
PeakWasReached == [][peak' # peak => peak' = Total(blocks')]_<<blocks, peak, on>>
=============================================================================
