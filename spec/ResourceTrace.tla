--------------------------- MODULE ResourceTrace ---------------------------
(* API level specification of the resource manager (resource.c) with the      *)
(* linearisation of each operation as a silent step, and validation of        *)
(* recorded histories against it.                                             *)
(*                                                                            *)
(* A manager has one active resource. Get gives a use of the resource active  *)
(* at some instant during the call, Release ends a use, Replace makes another *)
(* resource active, and ManagerFree leaves none. A resource is freed exactly  *)
(* once: never while it is active or used, and by the time no operation is in *)
(* flight if it is neither.                                                   *)
EXTENDS TraceBase
VARIABLES tr, l, active, cnt, freed, installed, op, held
vars == <<tr, l, active, cnt, freed, installed, op, held>>

(* "safety" decides C01 only: what is held is not freed. "full" decides C02. *)
Full == IOEnv.MODE = "full"
Threads == 0..8
Rs == 0..40
Idle == [k |-> "idle", r |-> 0, st |-> "idle", seen |-> {}]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr

Init ==
  /\ tr \in 1..NTraces /\ l = 1
  /\ active = 0 /\ cnt = [r \in Rs |-> 0] /\ freed = {} /\ installed = {}
  /\ op = [t \in Threads |-> Idle]
  /\ held = [t \in Threads |-> [r \in Rs |-> 0]]

Scenario == Take /\ e.e = "scenario" /\ UNCHANGED <<active, cnt, freed, installed, op, held>>

Create ==
  /\ Take /\ e.e = "init" /\ installed = {}
  /\ active' = e.r /\ installed' = {e.r}
  /\ UNCHANGED <<cnt, freed, op, held>>

(* a use obtained before the threads start *)
PreGet ==
  /\ Take /\ e.e = "pre" /\ e.r = active
  /\ cnt' = [cnt EXCEPT ![e.r] = @ + 1]
  /\ held' = [held EXCEPT ![e.t][e.r] = @ + 1]
  /\ UNCHANGED <<active, freed, installed, op>>

Call ==
  /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
  /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, r |-> e.r, st |-> "pend", seen |-> {active}]]
  /\ e.op = "rel" => held[e.t][e.r] > 0
  /\ held' = IF e.op = "rel" THEN [held EXCEPT ![e.t][e.r] = @ - 1] ELSE held
  /\ UNCHANGED <<active, cnt, freed, installed>>

(* ---- silent linearisation steps ---- *)
Silent == UNCHANGED <<tr, l, held>>
NoteActive(o, a) == [t \in Threads |-> IF o[t].k = "idle" THEN o[t] ELSE [o[t] EXCEPT !.seen = @ \cup {a}]]
LinGet(t) ==
  /\ op[t].k = "get" /\ op[t].st = "pend"
  /\ \E r \in (IF Full THEN {active} ELSE installed \ freed) :
       /\ r # 0
       /\ cnt' = [cnt EXCEPT ![r] = @ + 1]
       /\ op' = [op EXCEPT ![t].st = "lin", ![t].r = r]
  /\ UNCHANGED <<active, freed, installed>> /\ Silent
LinRel(t) ==
  /\ op[t].k = "rel" /\ op[t].st = "pend"
  /\ cnt' = [cnt EXCEPT ![op[t].r] = @ - 1]
  /\ op' = [op EXCEPT ![t].st = "lin"]
  /\ UNCHANGED <<active, freed, installed>> /\ Silent
LinRep(t) ==
  /\ op[t].k = "rep" /\ op[t].st = "pend"
  /\ active' = op[t].r /\ installed' = installed \cup {op[t].r}
  /\ op' = NoteActive([op EXCEPT ![t].st = "lin"], op[t].r)
  /\ UNCHANGED <<cnt, freed>> /\ Silent
LinFree(t) ==
  /\ op[t].k = "mfree" /\ op[t].st = "pend"
  /\ active' = 0
  /\ op' = NoteActive([op EXCEPT ![t].st = "lin"], 0)
  /\ UNCHANGED <<cnt, freed, installed>> /\ Silent

(* a resource is handed to its free method by an operation of thread t *)
MayFree(t, r) ==
  \/ op[t].k = "rel" /\ op[t].st = "lin" /\ op[t].r = r
  \/ op[t].k \in {"rep", "mfree"}
Free ==
  /\ Take /\ e.e = "free"
  /\ e.r \in installed /\ e.r # active /\ cnt[e.r] = 0 /\ e.r \notin freed
  /\ \A t \in Threads : held[t][e.r] = 0
  /\ MayFree(e.t, e.r)
  /\ freed' = freed \cup {e.r}
  /\ UNCHANGED <<active, cnt, installed, op, held>>

Others(t) == { u \in Threads \ {t} : op[u].k # "idle" }
Settled == \A r \in installed : (r # active /\ cnt[r] = 0) => r \in freed
Ret ==
  /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op /\ op[e.t].st = "lin"
  /\ e.op # "mfree" => op[e.t].r = e.r
  /\ held' = IF e.op = "get" THEN [held EXCEPT ![e.t][e.r] = @ + 1] ELSE held
  /\ op' = [op EXCEPT ![e.t] = Idle]
  /\ (Full /\ Others(e.t) = {}) => Settled
  /\ UNCHANGED <<active, cnt, freed, installed>>

(* Known finding: the control block of a replaced resource is read after it  *)
(* was freed, by a get or replace which saw it active since it started, or by *)
(* the operation which has just given up its own use of it.                   *)
LateHandleRead ==
  /\ Take /\ e.e = "uaf" /\ e.kind = "handle" /\ e.r \in freed
  /\ \/ op[e.t].k \in {"get", "rep", "mfree"} /\ e.r \in op[e.t].seen
     \/ op[e.t].k = "rel" /\ op[e.t].st = "lin" /\ e.r = op[e.t].r
  /\ UNCHANGED <<active, cnt, freed, installed, op, held>>

End ==
  /\ Take /\ e.e = "end"
  /\ Full =>
       /\ \A t \in Threads : op[t].k = "idle"
       /\ Settled
       /\ LET live == { e.live[i] : i \in 1..Len(e.live) } IN
            live = installed \ freed /\ e.handles = Cardinality(live)
       /\ e.others = 0
       /\ active # 0 => e.use = cnt[active]
  /\ UNCHANGED <<active, cnt, freed, installed, op, held>>

(* an execution which does not end is the concern of C02 *)
NoProgress ==
  /\ Take /\ ~Full /\ e.e \in {"stuck", "livelock"}
  /\ UNCHANGED <<active, cnt, freed, installed, op, held>>

Next ==
  \/ NoProgress
  \/ Scenario \/ Create \/ PreGet \/ Call \/ Free \/ Ret \/ LateHandleRead \/ End
  \/ \E t \in Threads : LinGet(t) \/ LinRel(t) \/ LinRep(t) \/ LinFree(t)
Spec == Init /\ [][Next]_vars

(* C01, on every state an explanation of a history goes through *)
NeverFreedInUse == \A r \in freed : cnt[r] = 0 /\ r # active
Constraint == NotePos(tr, l)
=============================================================================
