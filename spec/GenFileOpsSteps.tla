--------------------------- MODULE GenFileOpsSteps -------------------------
(* a shortest history to every transition of MCFileOps, for replay            *)
EXTENDS MCFileOps, Json
CONSTANT Some
SomeContents == {<<2, -1>>, <<2, 0>>}
VARIABLE hist
Num(n) == IF n = <<97>> THEN 0 ELSE 1
InitG == Init /\ hist = <<>>
WriteG == \E d \in Dirs, n \in Names, c \in Some : fs' = Put(fs, d, n, c) /\ hist' = Append(hist, <<"w", d, Num(n), c>>)
DeleteG == \E d \in Dirs, n \in Names : Exists(fs, d, n) /\ fs' = Without(fs, d, n) /\ hist' = Append(hist, <<"d", d, Num(n)>>)
CopyG == \E d, e \in Dirs, n, m \in Names : Exists(fs, d, n) /\ <<d, n>> # <<e, m>> /\ fs' = Put(fs, e, m, ContentOf(fs, d, n)) /\ hist' = Append(hist, <<"c", d, Num(n), e, Num(m)>>)
SpecG == InitG /\ [][(WriteG \/ DeleteG \/ CopyG) /\ UNCHANGED last]_<<vars, hist>>
View == fs
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
