----------------------------- MODULE PoolTrace -----------------------------
(* API level specification of the resource pool (pool.c): a get gives an item *)
(* no one else has, or none (with INSUFFICIENT_HANDLES) when at some instant  *)
(* of the call every item was in use; a release makes the item available.    *)
(* Each operation takes effect at one silent step between call and return.    *)
EXTENDS TraceBase
VARIABLES tr, l, items, free, op, held, freed
vars == <<tr, l, items, free, op, held, freed>>
Threads == 0..8
Idle == [k |-> "idle", r |-> 0, st |-> "idle"]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == /\ tr \in 1..NTraces /\ l = 1 /\ items = {} /\ free = {} /\ freed = {}
        /\ op = [t \in Threads |-> Idle] /\ held = [t \in Threads |-> {}]
Scenario == Take /\ e.e = "scenario" /\ UNCHANGED <<items, free, op, held, freed>>
Create == /\ Take /\ e.e = "init" /\ items = {} /\ e.r = e.size
          /\ items' = 1..e.r /\ free' = 1..e.r /\ UNCHANGED <<op, held, freed>>
Call == /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
        /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, r |-> e.r, st |-> "pend"]]
        /\ e.op = "rel" => e.r \in held[e.t]
        /\ held' = IF e.op = "rel" THEN [held EXCEPT ![e.t] = @ \ {e.r}] ELSE held
        /\ UNCHANGED <<items, free, freed>>
LinGet(t) == /\ op[t].k = "get" /\ op[t].st = "pend"
             /\ IF free = {}
                THEN op' = [op EXCEPT ![t].st = "lin", ![t].r = 0] /\ UNCHANGED free
                ELSE \E r \in free : /\ free' = free \ {r}
                                     /\ op' = [op EXCEPT ![t].st = "lin", ![t].r = r]
             /\ UNCHANGED <<tr, l, items, held, freed>>
LinRel(t) == /\ op[t].k = "rel" /\ op[t].st = "pend"
             /\ free' = free \cup {op[t].r}
             /\ op' = [op EXCEPT ![t].st = "lin"]
             /\ UNCHANGED <<tr, l, items, held, freed>>
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op /\ op[e.t].st = "lin" /\ op[e.t].r = e.r
       /\ e.op = "get" => e.st = (IF e.r = 0 THEN 1 ELSE 0)
       /\ held' = IF e.op = "get" /\ e.r # 0 THEN [held EXCEPT ![e.t] = @ \cup {e.r}] ELSE held
       /\ op' = [op EXCEPT ![e.t] = Idle] /\ UNCHANGED <<items, free, freed>>
(* at the end the available items can all be got, each once *)
Drain == /\ Take /\ e.e = "drain" /\ \A t \in Threads : op[t].k = "idle"
         /\ IF e.r = 0 THEN free = {} /\ UNCHANGED free
            ELSE e.r \in free /\ free' = free \ {e.r}
         /\ UNCHANGED <<items, op, held, freed>>
Free == /\ Take /\ e.e = "free" /\ e.r \in items \ freed /\ freed' = freed \cup {e.r}
        /\ UNCHANGED <<items, free, op, held>>
End == /\ Take /\ e.e = "end" /\ freed = items /\ e.resources = 0 /\ e.stacks = 0 /\ e.others = 0
       /\ UNCHANGED <<items, free, op, held, freed>>
Next == Scenario \/ Create \/ Call \/ Ret \/ Drain \/ Free \/ End \/ \E t \in Threads : LinGet(t) \/ LinRel(t)
Spec == Init /\ [][Next]_vars
Exclusive == \A t, u \in Threads : t # u => held[t] \cap held[u] = {}
NotAvailable == \A t \in Threads : held[t] \cap free = {}
Constraint == NotePos(tr, l)
=============================================================================
