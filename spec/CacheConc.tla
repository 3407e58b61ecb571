----------------------------- MODULE CacheConc -----------------------------
(* The locking of cache.c: each get and release runs under the lock of the    *)
(* shard of its key, and the load of an entry happens inside the lock. One    *)
(* action for: taking the lock, searching, choosing an entry, loading,        *)
(* inserting, giving up the lock. LOCKED = FALSE removes the lock.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Programs, Cap, LOCKED
Threads == 1..Len(Programs)
Nodes == 1..Cap
None == 99
VARIABLES lock, key, cnt, list, alloc, pc, ip, node, held, content, hits, misses
vars == <<lock, key, cnt, list, alloc, pc, ip, node, held, content, hits, misses>>
Op(t) == IF ip[t] <= Len(Programs[t]) THEN Programs[t][ip[t]] ELSE <<"done", 0>>
Init == /\ lock = 0 /\ key = [n \in Nodes |-> None] /\ cnt = [n \in Nodes |-> 0] /\ list = <<>> /\ alloc = 0
        /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1] /\ node = [t \in Threads |-> 0]
        /\ held = [t \in Threads |-> <<>>] /\ content = [n \in Nodes |-> None] /\ hits = 0 /\ misses = 0
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Finish(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
Remove(s, n) == SelectSeq(s, LAMBDA x : x # n)
Acquire(t) == /\ pc[t] = "idle" /\ Op(t)[1] # "done"
              /\ Op(t)[1] = "rel" => held[t] # <<>>
              /\ LOCKED => lock = 0
              /\ lock' = t /\ Goto(t, IF Op(t)[1] = "get" THEN "find" ELSE "dec")
              /\ UNCHANGED <<key, cnt, list, alloc, ip, node, held, content, hits, misses>>
Find(t) == /\ pc[t] = "find"
           /\ LET k == Op(t)[2] hit == { n \in Nodes : key[n] = k } IN
              IF hit # {}
              THEN \E n \in hit :
                   /\ cnt' = [cnt EXCEPT ![n] = @ + 1] /\ list' = (IF cnt[n] = 0 THEN Remove(list, n) ELSE list)
                   /\ node' = [node EXCEPT ![t] = n] /\ hits' = hits + 1 /\ Goto(t, "out") /\ UNCHANGED <<alloc, misses, key>>
              ELSE /\ misses' = misses + 1
                   /\ IF alloc < Cap
                      THEN /\ alloc' = alloc + 1 /\ node' = [node EXCEPT ![t] = alloc + 1] /\ Goto(t, "load") /\ UNCHANGED <<list, cnt, key>>
                      ELSE IF list = <<>>
                      THEN node' = [node EXCEPT ![t] = 0] /\ Goto(t, "out") /\ UNCHANGED <<list, cnt, key, alloc>>
                      ELSE LET v == list[Len(list)] IN
                           /\ node' = [node EXCEPT ![t] = v] /\ list' = SubSeq(list, 1, Len(list) - 1)
                           /\ key' = [key EXCEPT ![v] = None] /\ Goto(t, "load") /\ UNCHANGED <<cnt, alloc>>
                   /\ UNCHANGED hits /\ (pc'[t] = "load" \/ pc'[t] = "out")
           /\ UNCHANGED <<lock, ip, held, content>>
Load(t) == /\ pc[t] = "load" /\ content' = [content EXCEPT ![node[t]] = Op(t)[2]] /\ Goto(t, "insert")
           /\ cnt' = [cnt EXCEPT ![node[t]] = 1]
           /\ UNCHANGED <<lock, key, list, alloc, ip, node, held, hits, misses>>
Insert(t) == /\ pc[t] = "insert" /\ key' = [key EXCEPT ![node[t]] = Op(t)[2]] /\ Goto(t, "out")
             /\ UNCHANGED <<lock, cnt, list, alloc, ip, node, held, content, hits, misses>>
Out(t) == /\ pc[t] = "out" /\ lock' = 0
          /\ held' = IF node[t] # 0 THEN [held EXCEPT ![t] = Append(@, <<node[t], Op(t)[2]>>)] ELSE held
          /\ Finish(t)
          /\ UNCHANGED <<key, cnt, list, alloc, node, content, hits, misses>>
Dec(t) == /\ pc[t] = "dec"
          /\ LET n == Head(held[t])[1] IN
             /\ cnt' = [cnt EXCEPT ![n] = @ - 1]
             /\ list' = IF cnt[n] = 1 THEN <<n>> \o list ELSE list
          /\ held' = [held EXCEPT ![t] = Tail(@)] /\ lock' = 0 /\ Finish(t)
          /\ UNCHANGED <<key, alloc, node, content, hits, misses>>
Skip(t) == /\ pc[t] = "idle" /\ Op(t)[1] = "rel" /\ held[t] = <<>> /\ ip' = [ip EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<lock, key, cnt, list, alloc, pc, node, held, content, hits, misses>>
Next == \E t \in Threads : Acquire(t) \/ Find(t) \/ Load(t) \/ Insert(t) \/ Out(t) \/ Dec(t) \/ Skip(t)
Spec == Init /\ [][Next]_vars
(* C04 *)
Coherent == \A t \in Threads : \A i \in 1..Len(held[t]) : content[held[t][i][1]] = held[t][i][2]
PinnedNotListed == \A t \in Threads : \A i \in 1..Len(held[t]) : \A j \in 1..Len(list) : list[j] # held[t][i][1]
UniqueKey == \A n, m \in Nodes : (n # m /\ key[n] # None) => key[n] # key[m]
CountsHeld == (\A t \in Threads : pc[t] = "idle") =>
  \A n \in Nodes : cnt[n] = Cardinality({ <<t, i>> \in Threads \X (1..6) : i <= Len(held[t]) /\ held[t][i][1] = n })
Listed == (\A t \in Threads : pc[t] = "idle") =>
  \A n \in Nodes : (n <= alloc /\ cnt[n] = 0) <=> (\E j \in 1..Len(list) : list[j] = n)
=============================================================================
