----------------------------- MODULE CacheTrace -----------------------------
(* API level specification of the loading cache (cache.c) for concurrent      *)
(* histories. An entry is loaded by at most one get while it is cached; a get *)
(* gives the entry of its key; an entry which is held by anyone keeps its key *)
(* and is not loaded again; a get gives nothing only if its load failed, or   *)
(* every entry of the shard is held. Which entry is evicted is left open here *)
(* (CacheLRU.tla fixes it for one thread).                                    *)
EXTENDS TraceBase
VARIABLES tr, l, conc, cap, key, cnt, op, held, hits, misses
vars == <<tr, l, conc, cap, key, cnt, op, held, hits, misses>>
Threads == 0..8
None == -1000
Nodes == 1..(conc * cap)
Idle == [k |-> "idle", key |-> 0, n |-> 0, st |-> "idle", ok |-> 0]
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Abs(x) == IF x < 0 THEN -x ELSE x
ShardOf(k) == Abs(k) % conc
ShardNodes(k) == (ShardOf(k) * cap + 1)..((ShardOf(k) + 1) * cap)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ conc = 0 /\ cap = 0
        /\ key = <<>> /\ cnt = <<>> /\ hits = 0 /\ misses = 0
        /\ op = [t \in Threads |-> Idle] /\ held = [t \in Threads |-> <<>>]
Scenario == Take /\ e.e = "scenario" /\ UNCHANGED <<conc, cap, key, cnt, op, held, hits, misses>>
Create == /\ Take /\ e.e = "init" /\ conc = 0
          /\ conc' = e.conc /\ cap' = (e.cap \div e.conc) + (e.cap % e.conc)
          /\ key' = [n \in 1..(conc' * cap') |-> None] /\ cnt' = [n \in 1..(conc' * cap') |-> 0]
          /\ held' = [t \in Threads |-> [n \in 1..(conc' * cap') |-> 0]]
          /\ UNCHANGED <<op, hits, misses>>
Call == /\ Take /\ e.e = "call" /\ op[e.t].k = "idle"
        /\ op' = [op EXCEPT ![e.t] = [k |-> e.op, key |-> e.k, n |-> e.n, st |-> "pend", ok |-> 0]]
        /\ e.op = "rel" => e.n \in Nodes /\ held[e.t][e.n] > 0
        /\ held' = IF e.op = "rel" THEN [held EXCEPT ![e.t][e.n] = @ - 1] ELSE held
        /\ UNCHANGED <<conc, cap, key, cnt, hits, misses>>
Cached(k) == { n \in ShardNodes(k) : key[n] = k }
LinHit(t) == /\ op[t].k = "get" /\ op[t].st = "pend"
             /\ \E n \in Cached(op[t].key) :
                  /\ cnt' = [cnt EXCEPT ![n] = @ + 1]
                  /\ op' = [op EXCEPT ![t].st = "lin", ![t].n = n]
             /\ hits' = hits + 1 /\ UNCHANGED <<tr, l, conc, cap, key, held, misses>>
LinNone(t) == /\ op[t].k = "get" /\ op[t].st = "pend" /\ Cached(op[t].key) = {}
              /\ \A n \in ShardNodes(op[t].key) : cnt[n] > 0
              /\ op' = [op EXCEPT ![t].st = "lin", ![t].n = 0]
              /\ misses' = misses + 1 /\ UNCHANGED <<tr, l, conc, cap, key, cnt, held, hits>>
Load == /\ Take /\ e.e = "load"
        /\ op[e.t].k = "get" /\ op[e.t].st = "pend" /\ op[e.t].key = e.k
        /\ Cached(e.k) = {} /\ e.n \in ShardNodes(e.k) /\ cnt[e.n] = 0
        /\ IF e.ok = 1
           THEN /\ key' = [key EXCEPT ![e.n] = e.k] /\ cnt' = [cnt EXCEPT ![e.n] = 1]
                /\ op' = [op EXCEPT ![e.t].st = "lin", ![e.t].n = e.n]
           ELSE /\ key' = [key EXCEPT ![e.n] = None] /\ UNCHANGED cnt
                /\ op' = [op EXCEPT ![e.t].st = "lin", ![e.t].n = 0, ![e.t].ok = 1]
        /\ misses' = misses + 1 /\ UNCHANGED <<conc, cap, held, hits>>
LinRel(t) == /\ op[t].k = "rel" /\ op[t].st = "pend"
             /\ cnt' = [cnt EXCEPT ![op[t].n] = @ - 1]
             /\ op' = [op EXCEPT ![t].st = "lin"]
             /\ UNCHANGED <<tr, l, conc, cap, key, held, hits, misses>>
Ret == /\ Take /\ e.e = "ret" /\ op[e.t].k = e.op /\ op[e.t].st = "lin" /\ op[e.t].n = e.n /\ op[e.t].ok = e.st
       /\ held' = IF e.op = "get" /\ e.n # 0 THEN [held EXCEPT ![e.t][e.n] = @ + 1] ELSE held
       /\ op' = [op EXCEPT ![e.t] = Idle]
       /\ UNCHANGED <<conc, cap, key, cnt, hits, misses>>
End == /\ Take /\ e.e = "end" /\ \A t \in Threads : op[t].k = "idle"
       /\ e.hits = hits /\ e.misses = misses /\ e.data = 0 /\ e.others = 0
       /\ UNCHANGED <<conc, cap, key, cnt, op, held, hits, misses>>
Next == Scenario \/ Create \/ Call \/ Load \/ Ret \/ End \/ \E t \in Threads : LinHit(t) \/ LinNone(t) \/ LinRel(t)
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
Unique == conc > 0 => \A n, m \in Nodes : (n # m /\ key[n] # None) => key[n] # key[m]
=============================================================================
