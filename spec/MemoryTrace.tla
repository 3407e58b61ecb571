---------------------------- MODULE MemoryTrace ----------------------------
EXTENDS TraceBase, Memory
VARIABLES tr, l
vars == <<tr, l, blocks, peak, on>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ blocks = <<>> /\ peak = 0 /\ on = TRUE
Totals == e.alloc = Total(blocks') /\ e.max = peak'
Malloc == /\ Take /\ e.e = "malloc" /\ e.good = 1
          /\ IF e.ok = 0 THEN e.failed = 1 /\ Failed
             ELSE IF on THEN Alloc(e.s, e.size, e.align, e.alloc - Total(blocks)) ELSE Failed
          /\ Totals
Free == Take /\ e.e = "free" /\ e.good = 1 /\ Release(e.s) /\ Totals
Null == Take /\ e.e = "null" /\ Failed /\ Totals
Reset == Take /\ e.e = "reset" /\ Forget(on) /\ Totals
Setup == Take /\ e.e = "setup" /\ Forget(TRUE) /\ Totals
Unset == Take /\ e.e = "unset" /\ e.left = Total(blocks) /\ Forget(FALSE) /\ Totals
End == Take /\ e.e = "end" /\ e.live = 0 /\ (e.standard = 1 <=> ~on) /\ Failed
Next == Malloc \/ Free \/ Null \/ Reset \/ Setup \/ Unset \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
