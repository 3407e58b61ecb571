-------------------------- MODULE DataSetConcTrace --------------------------
(* Validation of recorded histories of DataSetConc. *)
EXTENDS TraceBase, DataSetConc
VARIABLES tr, l
vars == <<tr, l, active, cnt, freed, installed, props, op, held>>
ThreadNumbers == 0..8
SetNumbers == 0..20
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ InitDS
Scenario == Take /\ e.e = "scenario" /\ UNCHANGED dsvars
Create == Take /\ e.e = "init" /\ Start(e.r, e.kind)
PreGet == Take /\ e.e = "pre" /\ e.r = active /\ Given(e.t)
Call == Take /\ e.e = "call" /\ Begin(e.t, e.op, e.r, IF e.op = "load" THEN e.kind ELSE 0)
(* what is read of a data set is that of its content, and of what was made available *)
Use == /\ Take /\ e.e = "use" /\ op[e.t].k = "idle" /\ held[e.t][e.r] > 0
       /\ e.id = e.r /\ e.good = 1 /\ e.props = props[e.r]
       /\ UNCHANGED dsvars
Free == Take /\ e.e = "free" /\ (FreeOne(e.t, e.r) \/ Discard(e.t, e.r))
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op
       /\ e.op # "mfree" => op[e.t].r = e.r
       /\ Finish(e.t, IF e.op = "load" THEN e.ok = 1 ELSE TRUE)
(* Known finding of C01: the control block of a data set may be read after it was freed *)
LateHandleRead ==
  /\ Take /\ e.e = "uaf" /\ e.kind = "handle" /\ e.r \in freed
  /\ \/ op[e.t].k \in {"get", "load", "mfree"} /\ e.r \in op[e.t].seen
     \/ op[e.t].k = "rel" /\ op[e.t].st = "lin" /\ e.r = op[e.t].r
  /\ UNCHANGED dsvars
End ==
  /\ Take /\ e.e = "end" /\ \A t \in Threads : op[t].k = "idle"
  /\ Settled
  /\ {e.left[i] : i \in 1..Len(e.left)} = installed \ freed
  /\ e.handles = Cardinality(installed \ freed) /\ e.others = 0
  /\ active # 0 => e.use = cnt[active]
  /\ UNCHANGED dsvars
Silent == UNCHANGED <<tr, l>> /\ \E t \in Threads : Lin(t)
Next == Scenario \/ Create \/ PreGet \/ Call \/ Use \/ Free \/ Ret \/ LateHandleRead \/ End \/ Silent
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
