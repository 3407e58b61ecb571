---------------------------- MODULE ResourceCAS ----------------------------
(* The algorithm of resource.c, one action for each shared memory access.    *)
(* A handle holds a double width counter {self, inUse} which is changed only *)
(* by compare and swap; the manager points to the active handle.             *)
(*                                                                           *)
(* Programs gives each thread a sequence of operations: "get" (obtain a use),*)
(* "rel" (give one up), "rep" (replace the active resource).                 *)
(* REUSE lets the memory of a freed handle be used again for a new handle.   *)
(* RETRYFIX and EMPTYFIX are the repairs made to Replace and IncUse.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Programs, REUSE, RETRYFIX, EMPTYFIX, MaxH
Threads == 1..Len(Programs)
NULLH == 0
H == 1..MaxH
VARIABLES active, ctr, hfreed, res, rfreed, nextRes, pc, ip, h, h2, c, target, new, held, uaf, freeCount
vars == <<active, ctr, hfreed, res, rfreed, nextRes, pc, ip, h, h2, c, target, new, held, uaf, freeCount>>
(* pc: "idle" | get: "g0".."g3" | release: "r1".."r6" | replace: "p0","p1" ; the
   replace calls get and release, and 'ret' says where they go back to *)
Op(t) == IF ip[t] <= Len(Programs[t]) THEN Programs[t][ip[t]] ELSE "done"
Init ==
  /\ active = 1 /\ ctr = [x \in H |-> [self |-> x, n |-> 0]]
  /\ hfreed = [x \in H |-> x # 1]          \* not allocated counts as freed
  /\ res = [x \in H |-> IF x = 1 THEN 1 ELSE 0] /\ rfreed = {} /\ nextRes = 2
  /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1]
  /\ h = [t \in Threads |-> 0] /\ h2 = [t \in Threads |-> 0]
  /\ c = [t \in Threads |-> [self |-> 0, n |-> 0]]
  /\ target = [t \in Threads |-> 0] /\ new = [t \in Threads |-> 0]
  /\ held = [t \in Threads |-> <<>>] /\ uaf = {} /\ freeCount = [r \in 0..MaxH + 4 |-> 0]

Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Touch(t, x, tag) == uaf' = IF x = NULLH \/ ~hfreed[x] THEN uaf ELSE uaf \cup {tag}
Finish(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
InRep(t) == Op(t) = "rep"

Start(t) ==
  /\ pc[t] = "idle" /\ Op(t) # "done"
  /\ CASE Op(t) = "get" -> Goto(t, "g0") /\ UNCHANGED <<target, new, ctr, hfreed, res, nextRes, held>>
       [] Op(t) = "rel" -> /\ held[t] # <<>>
                           /\ target' = [target EXCEPT ![t] = Head(held[t])]
                           /\ held' = [held EXCEPT ![t] = Tail(@)]
                           /\ Goto(t, "r1") /\ UNCHANGED <<new, ctr, hfreed, res, nextRes>>
       [] Op(t) = "rep" -> \E x \in H :
             /\ hfreed[x] /\ (REUSE \/ res[x] = 0)
             /\ \A y \in H : (hfreed[y] /\ (REUSE \/ res[y] = 0)) => x <= y   \* the allocator's choice
             /\ new' = [new EXCEPT ![t] = x]
             /\ ctr' = [ctr EXCEPT ![x] = [self |-> x, n |-> 0]]
             /\ hfreed' = [hfreed EXCEPT ![x] = FALSE]
             /\ res' = [res EXCEPT ![x] = nextRes] /\ nextRes' = nextRes + 1
             /\ Goto(t, "g0") /\ UNCHANGED <<target, held>>
  /\ UNCHANGED <<active, rfreed, ip, h, h2, c, uaf, freeCount>>

(* ---- IncUse ---- *)
G0(t) == /\ pc[t] = "g0" /\ h' = [h EXCEPT ![t] = active] /\ Goto(t, "g1")
         /\ UNCHANGED <<active, ctr, hfreed, res, rfreed, nextRes, ip, h2, c, target, new, held, uaf, freeCount>>
G1(t) == /\ pc[t] = "g1" /\ c' = [c EXCEPT ![t] = ctr[h[t]]] /\ Touch(t, h[t], "get")
         /\ Goto(t, IF EMPTYFIX /\ ctr[h[t]].self = NULLH THEN "g0" ELSE "g2")
         /\ UNCHANGED <<active, ctr, hfreed, res, rfreed, nextRes, ip, h, h2, target, new, held, freeCount>>
(* without the repair the compiler may keep the pointer read first *)
G2(t) == /\ pc[t] = "g2" /\ \/ h2' = [h2 EXCEPT ![t] = active]
                            \/ ~EMPTYFIX /\ h2' = [h2 EXCEPT ![t] = h[t]]
         /\ Goto(t, "g3")
         /\ UNCHANGED <<active, ctr, hfreed, res, rfreed, nextRes, ip, h, c, target, new, held, uaf, freeCount>>
G3(t) == /\ pc[t] = "g3" /\ Touch(t, h2[t], "get")
         /\ IF ctr[h2[t]] = c[t]
            THEN /\ ctr' = [ctr EXCEPT ![h2[t]].n = @ + 1]
                 /\ IF InRep(t)
                    THEN /\ target' = [target EXCEPT ![t] = c[t].self] /\ Goto(t, "p1")
                         /\ UNCHANGED <<held, ip>>
                    ELSE /\ held' = [held EXCEPT ![t] = Append(@, c[t].self)] /\ Finish(t)
                         /\ UNCHANGED target
            ELSE Goto(t, "g0") /\ UNCHANGED <<ctr, held, target, ip>>
         /\ UNCHANGED <<active, hfreed, res, rfreed, nextRes, h, h2, c, new, freeCount>>
(* ---- Replace ---- *)
P1(t) == /\ pc[t] = "p1"
         /\ IF active = target[t]
            THEN active' = new[t] /\ new' = [new EXCEPT ![t] = 0]
            ELSE UNCHANGED <<active, new>>
         /\ Goto(t, "r1")
         /\ UNCHANGED <<ctr, hfreed, res, rfreed, nextRes, ip, h, h2, c, target, held, uaf, freeCount>>
(* ---- DecUse ---- *)
AfterRel(t) == IF InRep(t) /\ new[t] # 0 /\ RETRYFIX THEN Goto(t, "g0") /\ UNCHANGED ip ELSE Finish(t)
R1(t) == /\ pc[t] = "r1" /\ c' = [c EXCEPT ![t] = ctr[target[t]]] /\ Touch(t, target[t], "ownrel")
         /\ Goto(t, "r2")
         /\ UNCHANGED <<active, ctr, hfreed, res, rfreed, nextRes, ip, h, h2, target, new, held, freeCount>>
R2(t) == /\ pc[t] = "r2" /\ Touch(t, target[t], "ownrel")
         /\ IF ctr[target[t]] = c[t]
            THEN /\ ctr' = [ctr EXCEPT ![target[t]].n = @ - 1]
                 /\ c' = [c EXCEPT ![t].n = @ - 1]
                 /\ IF c[t].n = 1 THEN Goto(t, "r3") /\ UNCHANGED ip ELSE AfterRel(t)
            ELSE Goto(t, "r1") /\ UNCHANGED <<ctr, c, ip>>
         /\ UNCHANGED <<active, hfreed, res, rfreed, nextRes, h, h2, target, new, held, freeCount>>
R3(t) == /\ pc[t] = "r3" /\ Touch(t, target[t], "late")
         /\ IF active # c[t].self THEN Goto(t, "r4") /\ UNCHANGED ip ELSE AfterRel(t)
         /\ UNCHANGED <<active, ctr, hfreed, res, rfreed, nextRes, h, h2, c, target, new, held, freeCount>>
R4(t) == /\ pc[t] = "r4" /\ Touch(t, target[t], "late")
         /\ IF ctr[target[t]] = c[t]
            THEN ctr' = [ctr EXCEPT ![target[t]] = [self |-> NULLH, n |-> 0]] /\ Goto(t, "r5") /\ UNCHANGED ip
            ELSE AfterRel(t) /\ UNCHANGED ctr
         /\ UNCHANGED <<active, hfreed, res, rfreed, nextRes, h, h2, c, target, new, held, freeCount>>
R5(t) == /\ pc[t] = "r5" /\ rfreed' = rfreed \cup {res[target[t]]}
         /\ freeCount' = [freeCount EXCEPT ![res[target[t]]] = @ + 1]
         /\ Goto(t, "r6")
         /\ UNCHANGED <<active, ctr, hfreed, res, nextRes, ip, h, h2, c, target, new, held, uaf>>
R6(t) == /\ pc[t] = "r6" /\ hfreed' = [hfreed EXCEPT ![target[t]] = TRUE] /\ AfterRel(t)
         /\ UNCHANGED <<active, ctr, res, rfreed, nextRes, h, h2, c, target, new, held, uaf, freeCount>>

Next == \E t \in Threads : Start(t) \/ G0(t) \/ G1(t) \/ G2(t) \/ G3(t) \/ P1(t)
                           \/ R1(t) \/ R2(t) \/ R3(t) \/ R4(t) \/ R5(t) \/ R6(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

HeldSet == UNION { { held[t][i] : i \in 1..Len(held[t]) } : t \in Threads }
(* C01 *)
NoNullHandle == NULLH \notin HeldSet
NeverFreedWhileHeld == \A x \in HeldSet : x # NULLH => (~hfreed[x] /\ res[x] \notin rfreed)
ActiveNotFreed == res[active] \notin rfreed /\ ~hfreed[active]
OwnReleaseSafe == "ownrel" \notin uaf
(* C02 *)
FreedOnce == \A r \in DOMAIN freeCount : freeCount[r] <= 1
Quiet == \A t \in Threads : pc[t] = "idle" /\ (Op(t) = "done" \/ (Op(t) = "rel" /\ held[t] = <<>>))
Count(x) == Cardinality({ <<t, i>> \in Threads \X (1..4) : i <= Len(held[t]) /\ held[t][i] = x })
NoLeak == Quiet => \A x \in H : ~hfreed[x] => (x = active \/ Count(x) > 0)
CountExact == Quiet => \A x \in H : ~hfreed[x] => ctr[x] = [self |-> x, n |-> Count(x)]
Installed == Quiet => \A t \in Threads : new[t] = 0
(* the known finding, stated so that TLC exhibits it when checked *)
NoLateHandleAccess == uaf = {}
Terminates == <>Quiet
=============================================================================
