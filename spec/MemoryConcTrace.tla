-------------------------- MODULE MemoryConcTrace --------------------------
(* Memory.tla used by several threads: each operation takes effect at one     *)
(* silent step between its call and its return; but the total and the peak    *)
(* are read without the lock, so that they change at two steps of a malloc,   *)
(* between which no other operation changes them.                             *)
EXTENDS TraceBase, Memory
VARIABLES tr, l, op
vars == <<tr, l, op, blocks, peak, on>>
Threads == 0..8
Idle == [k |-> "idle", b |-> 0, n |-> 0, st |-> "idle", v |-> 0]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ blocks = <<>> /\ peak = 0 /\ on = TRUE /\ op = [t \in Threads |-> Idle]
Same == UNCHANGED <<blocks, peak, on>>
Scenario == Take /\ e.e = "scenario" /\ Same /\ UNCHANGED op
Call == /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
        /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, b |-> e.b, n |-> e.n, st |-> "pend", v |-> 0]] /\ Same
Nobody == \A t \in Threads : op[t].st \notin {"total", "peak"}
(* the first of the steps changes the total, or else the peak *)
First(t) == /\ op[t].st = "pend" /\ op[t].k = "malloc" /\ Nobody /\ UNCHANGED <<tr, l, on>>
            /\ \E w \in {With(blocks, op[t].b, op[t].n)} : \E p \in {Greater(peak, Total(w))} :
                 \/ p # peak /\ blocks' = w /\ peak' = peak /\ op' = [op EXCEPT ![t].st = "peak"]
                 \/ p # peak /\ peak' = p /\ blocks' = blocks /\ op' = [op EXCEPT ![t].st = "total"]
Second(t) == /\ op[t].st \in {"total", "peak"} /\ Alloc(op[t].b, op[t].n, 0, op[t].n)
             /\ op' = [op EXCEPT ![t].st = "lin", ![t].v = 1] /\ UNCHANGED <<tr, l>>
Lin(t) == /\ op[t].st = "pend" /\ UNCHANGED <<tr, l>> /\ (op[t].k \notin {"malloc", "free"} \/ Nobody)
          /\ CASE op[t].k = "malloc" -> Alloc(op[t].b, op[t].n, 0, op[t].n)
               [] op[t].k = "free" -> Release(op[t].b)
               [] OTHER -> Same
          /\ op' = [op EXCEPT ![t].st = "lin", ![t].v = CASE op[t].k = "malloc" -> 1 [] op[t].k = "get" -> Total(blocks) [] op[t].k = "max" -> peak [] OTHER -> 0]
(* a block is only given back by who has it, so it is tracked until then *)
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].st = "lin" /\ op[e.t].k = e.op /\ op[e.t].v = e.v
       /\ op' = [op EXCEPT ![e.t] = Idle] /\ Same
Totals == /\ Take /\ e.e = "totals" /\ \A t \in Threads : op[t].k = "idle"
          /\ e.alloc = Total(blocks) /\ e.max = peak /\ Same /\ UNCHANGED op
End == Take /\ e.e = "end" /\ e.live = 0 /\ blocks = <<>> /\ Same /\ UNCHANGED op
Next == Scenario \/ Call \/ Ret \/ Totals \/ End \/ \E t \in Threads : First(t) \/ Second(t) \/ Lin(t)
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
