----------------------------- MODULE DataSetConc -----------------------------
(* Threads which get, read, release and reload the data sets of a manager     *)
(* (dataset.c over resource.c), with the steps of each operation which take   *)
(* effect one by one.                                                         *)
(*                                                                            *)
(* A reload takes what was made available from a data set which was active    *)
(* since it started, and which it keeps until it has put another in place of  *)
(* the active one, or has failed and changed nothing. A data set is freed     *)
(* with all it is made of, once, when it is neither active nor used.          *)
EXTENDS Integers, FiniteSets, Bitwise
CONSTANTS Threads, Rs            \* numbers of threads, and of data sets from 1
VARIABLES active, cnt, freed, installed, props, op, held
dsvars == <<active, cnt, freed, installed, props, op, held>>
Idle == [k |-> "idle", r |-> 0, kind |-> 0, from |-> 0, st |-> "idle", seen |-> {}]
(* the kinds of data: what each has, the one which can't be loaded, and the one *)
(* which is, but for which there is no handle *)
Wanted == 7
Mask(kind) == CASE kind = 0 -> 7 [] kind = 1 -> 3 [] kind = 2 -> 12 [] OTHER -> 7
Broken(kind) == kind \in {3, 4}
InitDS == /\ active = 0 /\ cnt = [r \in Rs |-> 0] /\ freed = {} /\ installed = {} /\ props = [r \in Rs |-> 0]
          /\ op = [t \in Threads |-> Idle] /\ held = [t \in Threads |-> [r \in Rs |-> 0]]
Start(r, kind) == /\ installed = {} /\ active' = r /\ installed' = {r} /\ props' = [props EXCEPT ![r] = Mask(kind) & Wanted]
                  /\ UNCHANGED <<cnt, freed, op, held>>
(* thread t has a use from before *)
Given(t) == /\ active # 0 /\ cnt' = [cnt EXCEPT ![active] = @ + 1] /\ held' = [held EXCEPT ![t][active] = @ + 1]
            /\ UNCHANGED <<active, freed, installed, props, op>>
Begin(t, k, r, kind) ==
  /\ op[t].k = "idle"
  /\ op' = [op EXCEPT ![t] = [Idle EXCEPT !.k = k, !.r = r, !.kind = kind, !.st = "pend", !.seen = {active}]]
  /\ k = "rel" => held[t][r] > 0
  /\ held' = IF k = "rel" THEN [held EXCEPT ![t][r] = @ - 1] ELSE held
  /\ UNCHANGED <<active, cnt, freed, installed, props>>
NoteActive(o, a) == [t \in Threads |-> IF o[t].k = "idle" THEN o[t] ELSE [o[t] EXCEPT !.seen = @ \cup {a}]]
LinGet(t) ==
  /\ op[t].k \in {"get", "load"} /\ op[t].st = "pend" /\ active # 0
  /\ cnt' = [cnt EXCEPT ![active] = @ + 1]
  /\ op' = [op EXCEPT ![t].st = IF op[t].k = "get" THEN "lin" ELSE "has", ![t].from = active, ![t].r = IF op[t].k = "get" THEN active ELSE @]
  /\ UNCHANGED <<active, freed, installed, props>> /\ UNCHANGED held
LinRel(t) ==
  /\ op[t].k = "rel" /\ op[t].st = "pend"
  /\ cnt' = [cnt EXCEPT ![op[t].r] = @ - 1]
  /\ op' = [op EXCEPT ![t].st = "lin"]
  /\ UNCHANGED <<active, freed, installed, props>> /\ UNCHANGED held
Loads(o) == ~Broken(o.kind) /\ (Mask(o.kind) & props[o.from]) # 0
LinLoad(t) ==
  /\ op[t].k = "load" /\ op[t].st = "has" /\ Loads(op[t])
  /\ active' = op[t].r /\ installed' = installed \cup {op[t].r} /\ props' = [props EXCEPT ![op[t].r] = Mask(op[t].kind) & props[op[t].from]]
  /\ op' = NoteActive([op EXCEPT ![t].st = "put"], op[t].r)
  /\ UNCHANGED <<cnt, freed>> /\ UNCHANGED held
(* it lets go of the one it took from *)
LinDrop(t) ==
  /\ op[t].k = "load" /\ (op[t].st = "put" \/ (op[t].st = "has" /\ ~Loads(op[t])))
  /\ cnt' = [cnt EXCEPT ![op[t].from] = @ - 1]
  /\ op' = [op EXCEPT ![t].st = IF @ = "put" THEN "done" ELSE "failed"]
  /\ UNCHANGED <<active, freed, installed, props>> /\ UNCHANGED held
LinFree(t) ==
  /\ op[t].k = "mfree" /\ op[t].st = "pend" /\ active' = 0
  /\ op' = NoteActive([op EXCEPT ![t].st = "lin"], 0)
  /\ UNCHANGED <<cnt, freed, installed, props>> /\ UNCHANGED held
MayFree(t, r) ==
  \/ op[t].k = "rel" /\ op[t].st = "lin" /\ op[t].r = r
  \/ op[t].k = "mfree" \/ op[t].k = "load"
FreeOne(t, r) ==
  /\ r \in installed /\ r # active /\ cnt[r] = 0 /\ r \notin freed
  /\ \A u \in Threads : held[u][r] = 0
  /\ MayFree(t, r)
  /\ freed' = freed \cup {r}
  /\ UNCHANGED <<active, cnt, installed, props, op, held>>
(* what was loaded but can't be put in place is freed by who loaded it *)
Discard(t, r) ==
  /\ op[t].k = "load" /\ op[t].kind = 4 /\ op[t].r = r /\ op[t].st \in {"has", "failed"}
  /\ r \notin installed /\ r \notin freed /\ (Mask(4) & props[op[t].from]) # 0
  /\ freed' = freed \cup {r}
  /\ UNCHANGED <<active, cnt, installed, props, op, held>>
Others(t) == { u \in Threads \ {t} : op[u].k # "idle" }
Settled == \A r \in installed : (r # active /\ cnt[r] = 0) => r \in freed
Finish(t, ok) ==
  /\ op[t].k # "idle"
  /\ op[t].st = (IF op[t].k = "load" THEN (IF ok THEN "done" ELSE "failed") ELSE "lin")
  /\ (op[t].kind = 4 /\ (Mask(4) & props[op[t].from]) # 0) => op[t].r \in freed
  /\ held' = IF op[t].k = "get" THEN [held EXCEPT ![t][op[t].r] = @ + 1] ELSE held
  /\ op' = [op EXCEPT ![t] = Idle]
  /\ Others(t) = {} => Settled
  /\ UNCHANGED <<active, cnt, freed, installed, props>>
Lin(t) == LinGet(t) \/ LinRel(t) \/ LinLoad(t) \/ LinDrop(t) \/ LinFree(t)
NeverFreedInUse == /\ \A r \in freed : cnt[r] = 0 /\ r # active
                   /\ \A t \in Threads : (op[t].k = "load" /\ op[t].st \in {"has", "put"}) => op[t].from \notin freed
                   /\ \A t \in Threads : \A r \in Rs : held[t][r] > 0 => r \notin freed
=============================================================================
