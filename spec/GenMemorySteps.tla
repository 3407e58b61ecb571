--------------------------- MODULE GenMemorySteps ---------------------------
(* a shortest history to every transition of MCMemory, for replay; stale are  *)
(* the blocks which are there but no longer tracked                           *)
EXTENDS MCMemory, TLC, Json
VARIABLES stale, hist
InitG == Init /\ stale = {} /\ hist = <<>>
There(s) == s \in DOMAIN blocks \/ s \in stale
AllocG == \E s \in Blocks, size \in Sizes, a \in {0, 1} : ~There(s) /\ (\A x \in Blocks : x < s => There(x))
            /\ (IF on THEN Alloc(s, size, 0, size) /\ UNCHANGED stale ELSE Failed /\ stale' = stale \union {s})
            /\ hist' = Append(hist, <<"m", s, size, a>>)
FailG == \E s \in Blocks, n \in {1, 2}, a \in {0, 1} : ~There(s) /\ (\A x \in Blocks : x < s => There(x)) /\ Failed /\ hist' = Append(hist, <<"x", s, n, a>>) /\ UNCHANGED stale
FreeG == \E s \in Blocks : There(s) /\ Release(s) /\ stale' = stale \ {s} /\ hist' = Append(hist, <<"f", s>>)
ForgetG == \E o \in {"R", "S", "U"} : Forget(IF o = "R" THEN on ELSE o = "S") /\ stale' = stale \union DOMAIN blocks /\ hist' = Append(hist, <<o>>)
NullG == Failed /\ hist' = Append(hist, <<"z">>) /\ UNCHANGED stale
SpecG == InitG /\ [][AllocG \/ FailG \/ FreeG \/ ForgetG \/ NullG]_<<blocks, peak, on, stale, hist>>
View == <<blocks, peak, on, stale>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
