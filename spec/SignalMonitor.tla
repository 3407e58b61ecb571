---------------------------- MODULE SignalMonitor ----------------------------
(* The algorithm of threading.c: a flag guarded by a mutex and a condition.   *)
(* Waiters and setters each perform a number of operations. Checked: at most  *)
(* one wait more than the sets returns, nobody sleeps while the signal is     *)
(* set, and with fairness every waiter returns when there are enough sets.    *)
EXTENDS Naturals, FiniteSets
CONSTANTS Waiters, Setters, Waits, Sets, SPURIOUS, BROKEN
VARIABLES wait, mutex, pc, left, asleep, returned, done
vars == <<wait, mutex, pc, left, asleep, returned, done>>
Procs == Waiters \cup Setters
Init == /\ wait = FALSE /\ mutex = "none" /\ asleep = {} /\ returned = 0 /\ done = 0
        /\ pc = [p \in Procs |-> "idle"]
        /\ left = [p \in Procs |-> IF p \in Waiters THEN Waits ELSE Sets]
Lock(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ mutex = "none"
           /\ mutex' = p /\ pc' = [pc EXCEPT ![p] = "in"]
           /\ UNCHANGED <<wait, left, asleep, returned, done>>
(* wait: test of the flag *)
Sleep(p) == /\ p \in Waiters /\ pc[p] = "in" /\ wait
            /\ mutex' = "none" /\ asleep' = asleep \cup {p} /\ pc' = [pc EXCEPT ![p] = "sleep"]
            /\ UNCHANGED <<wait, left, returned, done>>
Wake(p) == /\ pc[p] = "sleep" /\ p \notin asleep /\ mutex = "none"
           /\ mutex' = p /\ pc' = [pc EXCEPT ![p] = "in"]
           /\ UNCHANGED <<wait, left, asleep, returned, done>>
Spurious(p) == /\ SPURIOUS /\ p \in asleep /\ asleep' = asleep \ {p}
               /\ UNCHANGED <<wait, mutex, pc, left, returned, done>>
Consume(p) == /\ p \in Waiters /\ pc[p] = "in" /\ ~wait
              /\ wait' = TRUE /\ mutex' = "none" /\ pc' = [pc EXCEPT ![p] = "idle"]
              /\ left' = [left EXCEPT ![p] = @ - 1] /\ returned' = returned + 1
              /\ UNCHANGED <<asleep, done>>
(* set: the flag, then the condition, then the unlock. BROKEN "order" signals *)
(* before the flag without the lock, "if" does not test again (see IfWake)    *)
SetFlag(p) == /\ p \in Setters /\ pc[p] = "in"
              /\ wait' = FALSE /\ pc' = [pc EXCEPT ![p] = "signal"]
              /\ done' = done + 1
              /\ UNCHANGED <<mutex, left, asleep, returned>>
Signal(p) == /\ pc[p] = "signal"
             /\ IF asleep = {} \/ (BROKEN = "once" /\ Cardinality(asleep) > 1) THEN UNCHANGED asleep
                ELSE \E q \in asleep : asleep' = asleep \ {q}
             /\ mutex' = "none" /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ UNCHANGED <<wait, returned, done>>
(* the defect of testing the flag once *)
IfWake(p) == /\ BROKEN = "if" /\ pc[p] = "sleep" /\ p \notin asleep /\ mutex = "none"
             /\ wait' = TRUE /\ returned' = returned + 1 /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<mutex, asleep, done>>
Next == \E p \in Procs : Lock(p) \/ Sleep(p) \/ Wake(p) \/ Spurious(p) \/ Consume(p) \/ SetFlag(p) \/ Signal(p) \/ IfWake(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Lock(p) \/ Wake(p)) /\ WF_vars(Sleep(p) \/ Consume(p) \/ SetFlag(p) \/ Signal(p))
TypeOK == mutex \in Procs \cup {"none"} /\ wait \in BOOLEAN
AtMost == returned <= done + 1
(* nobody stays asleep while the signal is set unless one was woken for it    *)
NoLostWakeup == (~wait /\ mutex = "none" /\ asleep # {})
                  => \E p \in Waiters : pc[p] = "sleep" /\ p \notin asleep
(* at the end the number of returns is explained by the flag *)
Quiescent == (\A p \in Procs : pc[p] = "idle" \/ p \in asleep)
SleepMeansUnset == Quiescent /\ mutex = "none" /\ asleep # {} /\ (\A p \in Waiters : pc[p] = "idle" => left[p] = 0) => wait
EventuallyReturn == <>[](asleep = {} \/ wait)
=============================================================================
