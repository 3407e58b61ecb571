----------------------------- MODULE SignalTrace -----------------------------
(* API level specification of the signal and the mutex (threading.c).         *)
(* The signal is an auto reset event, created set: a wait returns only by     *)
(* consuming the set state, so that n sets release at most n waits (and one   *)
(* more for the initial state), and no waiter stays blocked while it is set.  *)
(* The mutex is held by one thread at a time.                                 *)
EXTENDS TraceBase
VARIABLES tr, l, avail, op, owner
vars == <<tr, l, avail, op, owner>>
Threads == 0..8
Idle == [k |-> "idle", st |-> "idle"]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == /\ tr \in 1..NTraces /\ l = 1 /\ avail = FALSE /\ owner = 0
        /\ op = [t \in Threads |-> Idle]
Scenario == Take /\ e.e = "scenario" /\ UNCHANGED <<avail, op, owner>>
Create == Take /\ e.e = "init" /\ e.op = "ok" /\ avail' = TRUE /\ UNCHANGED <<op, owner>>
Call == /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
        /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, st |-> "pend"]]
        /\ UNCHANGED <<avail, owner>>
LinWait(t) == /\ op[t].k = "wait" /\ op[t].st = "pend" /\ avail
              /\ avail' = FALSE /\ op' = [op EXCEPT ![t].st = "lin"]
              /\ UNCHANGED <<tr, l, owner>>
LinSet(t) == /\ op[t].k = "set" /\ op[t].st = "pend"
             /\ avail' = TRUE /\ op' = [op EXCEPT ![t].st = "lin"]
             /\ UNCHANGED <<tr, l, owner>>
LinLock(t) == /\ op[t].k = "lock" /\ op[t].st = "pend" /\ owner = 0
              /\ owner' = t /\ op' = [op EXCEPT ![t].st = "lin"]
              /\ UNCHANGED <<tr, l, avail>>
LinUnlock(t) == /\ op[t].k = "unlock" /\ op[t].st = "pend" /\ owner = t
                /\ owner' = 0 /\ op' = [op EXCEPT ![t].st = "lin"]
                /\ UNCHANGED <<tr, l, avail>>
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op /\ op[e.t].st = "lin"
       /\ op' = [op EXCEPT ![e.t] = Idle] /\ UNCHANGED <<avail, owner>>
(* nothing can run any more: only waits on a signal which is not set and locks *)
(* of a mutex which is held may be left                                        *)
Stuck == /\ Take /\ e.e = "stuck"
         /\ \A t \in Threads : \/ op[t].k = "idle"
                               \/ op[t].k = "wait" /\ op[t].st = "pend" /\ ~avail
                               \/ op[t].k = "lock" /\ op[t].st = "pend" /\ owner # 0
         /\ \E t \in Threads : op[t].k # "idle"
         /\ UNCHANGED <<avail, op, owner>>
End == /\ Take /\ e.e = "end" /\ e.op = "ok" /\ \A t \in Threads : op[t].k = "idle"
       /\ UNCHANGED <<avail, op, owner>>
Next == Scenario \/ Create \/ Call \/ Ret \/ Stuck \/ End
        \/ \E t \in Threads : LinWait(t) \/ LinSet(t) \/ LinLock(t) \/ LinUnlock(t)
Spec == Init /\ [][Next]_vars
WaitTakesFlag == \A t \in Threads : op[t].k = "lock" /\ op[t].st = "lin" => owner = t
Constraint == NotePos(tr, l)
=============================================================================
