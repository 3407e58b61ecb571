--------------------------- MODULE MCDataSetConc ---------------------------
(* DataSetConc with every program of its threads. CARELESS frees a data set   *)
(* which was replaced without regard to its uses.                             *)
EXTENDS DataSetConc
CONSTANTS Kinds, MaxOps, CARELESS
VARIABLES ops, reloaded
vars == <<active, cnt, freed, installed, props, op, held, ops, reloaded>>
Init == InitDS /\ ops = 0 /\ reloaded = 0
Next ==
  \/ /\ \E k \in Kinds : Start(1, k) /\ ~Broken(k)
     /\ reloaded' = 1 /\ UNCHANGED ops
  \/ /\ active # 0 /\ ops < MaxOps /\ ops' = ops + 1
     /\ \E t \in Threads :
          \/ Begin(t, "get", 0, 0) /\ (\A u \in Threads : op[u].k # "mfree") /\ UNCHANGED reloaded
          \/ \E r \in Rs : Begin(t, "rel", r, 0) /\ UNCHANGED reloaded
          \/ reloaded + 1 \in Rs /\ reloaded' = reloaded + 1 /\ \E k \in Kinds : Begin(t, "load", reloaded + 1, k)
     
  \/ active = 0 /\ installed # {} /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED reloaded /\ \E t \in Threads, r \in Rs : Begin(t, "rel", r, 0)
  (* the manager is freed when no other operation is under way *)
  \/ /\ active # 0 /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED reloaded
     /\ \E t \in Threads : Others(t) = {} /\ Begin(t, "mfree", 0, 0)
  \/ UNCHANGED <<ops, reloaded>> /\ \E t \in Threads : Lin(t) \/ Finish(t, TRUE) \/ Finish(t, FALSE) \/ \E r \in Rs : FreeOne(t, r) \/ Discard(t, r)
  \/ CARELESS /\ UNCHANGED <<ops, reloaded, active, cnt, installed, props, op, held>> /\ \E r \in installed \ (freed \union {active}) : freed' = freed \union {r}
Spec == Init /\ [][Next]_vars
Counted == \A r \in Rs : cnt[r] = LET F[T \in SUBSET Threads] == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN held[t][r] + F[T \ {t}] IN
     F[Threads] + Cardinality({t \in Threads : op[t].k = "load" /\ op[t].st \in {"has", "put"} /\ op[t].from = r})
                + Cardinality({t \in Threads : op[t].k = "get" /\ op[t].st = "lin" /\ op[t].r = r})
                + Cardinality({t \in Threads : op[t].k = "rel" /\ op[t].st = "pend" /\ op[t].r = r})
(* nothing is left when all is done *)
Over == (\A t \in Threads : op[t].k = "idle") => \A r \in installed : (r # active /\ cnt[r] = 0) => r \in freed
(* what a data set makes available never changes, and a reload which fails changes nothing *)
PropsStay == [][\A r \in installed : props'[r] = props[r]]_vars
ActiveOnlyByLoad == [][active' # active /\ active # 0 => \/ active' = 0 \/ \E t \in Threads : op[t].k = "load" /\ op[t].r = active' /\ op[t].st = "has" /\ ~Broken(op[t].kind)]_vars
FreedStay == [][freed \subseteq freed']_vars
(* properties are kept through reloads *)
Kept == \A r \in installed : props[r] # 0
=============================================================================
