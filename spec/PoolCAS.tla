------------------------------ MODULE PoolCAS ------------------------------
(* The algorithm of pool.c, one action for each shared memory access: a stack *)
(* linked through the index of the next item, whose head is an index and a    *)
(* counter changed together by compare and swap. ABAMOD is the modulus of the *)
(* counter (65536 in the code).                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Size, ABAMOD, Programs
Threads == 1..Len(Programs)
VARIABLES head, next, pc, ip, orig, nxt, item, held, got
vars == <<head, next, pc, ip, orig, nxt, item, held, got>>
Op(t) == IF ip[t] <= Len(Programs[t]) THEN Programs[t][ip[t]] ELSE "done"
Init == /\ head = [i |-> Size, a |-> 0] /\ next = [i \in 0..Size |-> IF i = 0 THEN 0 ELSE i - 1]
        /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1]
        /\ orig = [t \in Threads |-> [i |-> 0, a |-> 0]] /\ nxt = [t \in Threads |-> 0]
        /\ item = [t \in Threads |-> 0] /\ held = [t \in Threads |-> <<>>] /\ got = 0
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Finish(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
Start(t) == /\ pc[t] = "idle"
            /\ CASE Op(t) = "g" -> Goto(t, "g1") /\ UNCHANGED <<ip, item, held>>
                 [] Op(t) = "r" /\ held[t] = <<>> -> ip' = [ip EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, item, held>>
                 [] Op(t) = "r" /\ held[t] # <<>> ->
                      /\ item' = [item EXCEPT ![t] = Head(held[t])]
                      /\ held' = [held EXCEPT ![t] = Tail(@)] /\ Goto(t, "r1") /\ UNCHANGED ip
                 [] Op(t) = "done" -> FALSE /\ UNCHANGED <<pc, ip, item, held>>
            /\ UNCHANGED <<head, next, orig, nxt, got>>
G1(t) == /\ pc[t] = "g1" /\ orig' = [orig EXCEPT ![t] = head]
         /\ IF head.i = 0 THEN Finish(t) ELSE Goto(t, "g2") /\ UNCHANGED ip
         /\ UNCHANGED <<head, next, nxt, item, held, got>>
G2(t) == /\ pc[t] = "g2" /\ nxt' = [nxt EXCEPT ![t] = next[orig[t].i]] /\ Goto(t, "g3")
         /\ UNCHANGED <<head, next, ip, orig, item, held, got>>
G3(t) == /\ pc[t] = "g3"
         /\ IF head = orig[t]
            THEN /\ head' = [i |-> nxt[t], a |-> (orig[t].a + 1) % ABAMOD]
                 /\ held' = [held EXCEPT ![t] = Append(@, orig[t].i)] /\ Finish(t)
            ELSE Goto(t, "g1") /\ UNCHANGED <<head, held, ip>>
         /\ UNCHANGED <<next, orig, nxt, item, got>>
R1(t) == /\ pc[t] = "r1" /\ orig' = [orig EXCEPT ![t] = head] /\ Goto(t, "r2")
         /\ UNCHANGED <<head, next, ip, nxt, item, held, got>>
R2(t) == /\ pc[t] = "r2" /\ next' = [next EXCEPT ![item[t]] = orig[t].i] /\ Goto(t, "r3")
         /\ UNCHANGED <<head, ip, orig, nxt, item, held, got>>
R3(t) == /\ pc[t] = "r3"
         /\ IF head = orig[t]
            THEN head' = [i |-> item[t], a |-> (orig[t].a + 1) % ABAMOD] /\ item' = [item EXCEPT ![t] = 0] /\ Finish(t)
            ELSE Goto(t, "r1") /\ UNCHANGED <<head, item, ip>>
         /\ UNCHANGED <<next, orig, nxt, held, got>>
Next == \E t \in Threads : Start(t) \/ G1(t) \/ G2(t) \/ G3(t) \/ R1(t) \/ R2(t) \/ R3(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Chain(_, _)
Chain(i, seen) == IF i = 0 THEN seen ELSE IF i \in seen THEN {99} ELSE Chain(next[i], seen \cup {i})
Avail == Chain(head.i, {})
HeldOf(t) == { held[t][i] : i \in 1..Len(held[t]) } \cup (IF item[t] # 0 THEN {item[t]} ELSE {})
NHeld(t) == Len(held[t]) + (IF item[t] # 0 THEN 1 ELSE 0)
(* C03 *)
Exclusive == /\ \A t \in Threads : Cardinality(HeldOf(t)) = NHeld(t)
             /\ \A t, u \in Threads : t # u => HeldOf(t) \cap HeldOf(u) = {}
Conserved == /\ 99 \notin Avail
             /\ Avail \cup (UNION { HeldOf(t) : t \in Threads }) = 1..Size
             /\ \A t \in Threads : HeldOf(t) \cap Avail = {}
Done == \A t \in Threads : pc[t] = "idle" /\ Op(t) = "done"
Terminates == <>Done
=============================================================================
