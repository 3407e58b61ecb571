-------------------------- MODULE GenOverrideSteps --------------------------
(* a shortest history to every transition of the override values: adds which  *)
(* can fail and resets, on arrays of each capacity, for replay. A reset array *)
(* is not a new one to the code, so it is another state.                      *)
EXTENDS Properties, TLC, Json
CONSTANTS Props, MaxCap
VARIABLES vals, cap, used, hist
Init == vals = <<>> /\ cap \in 0..MaxCap /\ used = 0 /\ hist = << <<cap>> >>
(* 1 and 2 stand for a short and a long value *)
Add == \E i \in Props, v \in {1, 2}, f \in {0, 1} :
         /\ vals' = IF f = 0 \/ Full(vals, cap) THEN Added(vals, cap, i, v) ELSE Dropped(vals, i)
         /\ hist' = Append(hist, <<"A", i, v, f>>) /\ UNCHANGED <<cap, used>>
Reset == vals' = <<>> /\ used' = (IF Len(vals) > used THEN Len(vals) ELSE used) /\ hist' = Append(hist, <<"R">>) /\ UNCHANGED cap
Spec == Init /\ [][Add \/ Reset]_<<vals, cap, used, hist>>
View == <<vals, cap, used>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
OneEach == \A a, b \in 1..Len(vals) : vals[a].idx = vals[b].idx => a = b
Fits == Len(vals) <= cap
=============================================================================
