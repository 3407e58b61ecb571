---------------------------- MODULE ReadersTrace ----------------------------
(* Threads which read the collections of a data set in a file. Each gets the  *)
(* item of its key, with the same content for as long as it is held, or is    *)
(* told that there aren't enough handles; and that only when, at some instant *)
(* of the get, as many others were reading as there are file handles, or the  *)
(* entries of a cache were all in use (the property of the data set holds one of the strings). Afterwards everything is there again.  *)
EXTENDS TraceBase
VARIABLES tr, l, cfg, op, held, peak
vars == <<tr, l, cfg, op, held, peak>>
Threads == 0..8
Colls == 0..3
Idle == [k |-> "idle", c |-> 0, i |-> 0]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == /\ tr \in 1..NTraces /\ l = 1 /\ cfg = <<>> /\ op = [t \in Threads |-> Idle]
        /\ held = [c \in Colls |-> [t \in Threads |-> 0]] /\ peak = [t \in Threads |-> [reads |-> 0, used |-> 0]]
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET t == CHOOSE t \in s : TRUE IN f[t] + Sum(f, s \ {t})
Reads(o, t) == Cardinality({u \in Threads \ {t} : o[u].k = "get"})
Used(o, h, t) == Sum(h[o[t].c], Threads) + Cardinality({u \in Threads \ {t} : o[u].k # "idle" /\ o[u].c = o[t].c})
Note(o, h) == [t \in Threads |-> IF o[t].k # "get" THEN [reads |-> 0, used |-> 0]
               ELSE LET p == IF op[t].k = "get" THEN peak[t] ELSE [reads |-> 0, used |-> 0]
                    IN [reads |-> Max(p.reads, Reads(o, t)), used |-> Max(p.used, Used(o, h, t))]]
Scenario == Take /\ e.e = "scenario" /\ UNCHANGED <<cfg, op, held, peak>>
Create == Take /\ e.e = "init" /\ cfg = <<>> /\ cfg' = e /\ UNCHANGED <<op, held, peak>>
(* values, strings, profiles and components *)
Kind(c) == IF c \in {0, 3} THEN cfg.kv ELSE cfg.ks
Missing(o) == o.c = 0 /\ o.i = 100
Loaded(o) == o.c = 0 /\ Kind(0) \in {2, 3} /\ o.i < 3
Call == /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
        /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, c |-> e.c, i |-> e.i]]
        /\ e.op = "rel" => held[e.c][e.t] > 0
        /\ held' = IF e.op = "rel" THEN [held EXCEPT ![e.c][e.t] = @ - 1] ELSE held
        /\ peak' = Note(op', held') /\ UNCHANGED cfg
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op
       /\ LET o == op[e.t] IN
          /\ CASE e.ok = 1 -> ~(e.op = "get" /\ Missing(o))
               [] e.why = "other" -> Missing(o)
               [] OTHER -> /\ ~Loaded(o)
                           /\ \/ peak[e.t].reads >= cfg.pool
                              \/ Kind(o.c) \in {1, 3} /\ peak[e.t].used >= cfg.entries - (IF o.c = 1 THEN 1 ELSE 0)
          /\ held' = IF e.op = "get" /\ e.ok = 1 THEN [held EXCEPT ![o.c][e.t] = @ + 1] ELSE held
       /\ op' = [op EXCEPT ![e.t] = Idle]
       /\ peak' = Note(op', held') /\ UNCHANGED cfg
End == /\ Take /\ e.e = "end" /\ \A t \in Threads : op[t].k = "idle"
       /\ e.good = 36 /\ e.handles = cfg.pool /\ e.left = 0 /\ e.files = 0
       /\ UNCHANGED <<cfg, op, held, peak>>
Next == Scenario \/ Create \/ Call \/ Ret \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
