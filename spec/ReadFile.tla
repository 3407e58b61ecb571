------------------------------ MODULE ReadFile ------------------------------
(* The algorithm of a read (collection.c, file.c, cache.c), one action for    *)
(* each step: look in the cache under its lock, take a handle of the pool,    *)
(* seek, read, give the handle back, keep what was read in an entry nobody    *)
(* holds, and give up the lock. CACHED = FALSE reads without a cache.         *)
(* EARLY gives the handle back before it has read, NOLOCK has no lock and     *)
(* FORGET keeps the handle when the read fails: variants which must fail.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Keys, Handles, Entries, CACHED, EARLY, NOLOCK, FORGET, MaxGets
VARIABLES pc, key, handle, free, pos, buf, lock, entry, pins, got, gets
vars == <<pc, key, handle, free, pos, buf, lock, entry, pins, got, gets>>
None == 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ key = [t \in Threads |-> None] /\ handle = [t \in Threads |-> None] /\ free = Handles
        /\ pos = [h \in Handles |-> None] /\ buf = [t \in Threads |-> None] /\ lock = None
        /\ entry = [n \in Entries |-> None] /\ pins = [n \in Entries |-> {}] /\ got = [t \in Threads |-> <<>>] /\ gets = 0
Goes(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t] = "idle" /\ got[t] = <<>> /\ gets < MaxGets /\ gets' = gets + 1
           /\ \E k \in Keys : key' = [key EXCEPT ![t] = k]
           /\ Goes(t, IF CACHED THEN "lock" ELSE "take")
           /\ UNCHANGED <<handle, free, pos, buf, lock, entry, pins, got>>
Lock(t) == /\ pc[t] = "lock" /\ (NOLOCK \/ lock = None) /\ lock' = IF NOLOCK THEN lock ELSE t
           /\ Goes(t, "look") /\ UNCHANGED <<key, handle, free, pos, buf, entry, pins, got, gets>>
Unlock(t) == lock' = IF lock = t THEN None ELSE lock
Look(t) ==
  /\ pc[t] = "look"
  /\ IF \E n \in Entries : entry[n] = key[t]
     THEN LET n == CHOOSE n \in Entries : entry[n] = key[t] IN
          /\ pins' = [pins EXCEPT ![n] = @ \cup {t}] /\ got' = [got EXCEPT ![t] = <<entry[n], n>>] /\ Goes(t, "idle") /\ Unlock(t)
     ELSE IF \A n \in Entries : pins[n] # {}
     THEN Goes(t, "idle") /\ Unlock(t) /\ UNCHANGED <<pins, got>>
     ELSE Goes(t, "take") /\ UNCHANGED <<pins, got, lock>>
  /\ UNCHANGED <<key, handle, free, pos, buf, entry, gets>>
Take(t) ==
  /\ pc[t] = "take"
  /\ IF free = {} THEN Goes(t, "idle") /\ Unlock(t) /\ UNCHANGED <<handle, free>>
     ELSE \E h \in free : handle' = [handle EXCEPT ![t] = h] /\ free' = free \ {h} /\ Goes(t, "seek") /\ UNCHANGED lock
  /\ UNCHANGED <<key, pos, buf, entry, pins, got, gets>>
Seek(t) ==
  /\ pc[t] = "seek"
  /\ \/ pos' = [pos EXCEPT ![handle[t]] = key[t]] /\ Goes(t, IF EARLY THEN "early" ELSE "read")
     \/ Goes(t, IF FORGET THEN "failed" ELSE "give") /\ buf[t] = None /\ UNCHANGED pos
  /\ UNCHANGED <<key, handle, free, buf, lock, entry, pins, got, gets>>
Early(t) == pc[t] = "early" /\ free' = free \cup {handle[t]} /\ Goes(t, "read") /\ UNCHANGED <<key, handle, pos, buf, lock, entry, pins, got, gets>>
Read(t) ==
  /\ pc[t] = "read" /\ buf' = [buf EXCEPT ![t] = pos[handle[t]]] /\ pos' = [pos EXCEPT ![handle[t]] = None]
  /\ Goes(t, "give") /\ UNCHANGED <<key, handle, free, lock, entry, pins, got, gets>>
Give(t) ==
  /\ pc[t] = "give" /\ free' = free \cup {handle[t]} /\ handle' = [handle EXCEPT ![t] = None]
  /\ Goes(t, IF buf[t] = None THEN "failed" ELSE IF CACHED THEN "keep" ELSE "done")
  /\ UNCHANGED <<key, pos, buf, lock, entry, pins, got, gets>>
Fail(t) == pc[t] = "failed" /\ Goes(t, "idle") /\ Unlock(t) /\ handle' = [handle EXCEPT ![t] = None] /\ UNCHANGED <<key, free, pos, buf, entry, pins, got, gets>>
Keep(t) ==
  /\ pc[t] = "keep"
  /\ \E n \in Entries : /\ pins[n] = {} /\ entry' = [entry EXCEPT ![n] = buf[t]] /\ pins' = [pins EXCEPT ![n] = {t}]
                        /\ got' = [got EXCEPT ![t] = <<buf[t], n>>]
  /\ buf' = [buf EXCEPT ![t] = None] /\ Goes(t, "idle") /\ Unlock(t) /\ UNCHANGED <<key, handle, free, pos, gets>>
Done(t) == /\ pc[t] = "done" /\ got' = [got EXCEPT ![t] = <<buf[t], None>>] /\ buf' = [buf EXCEPT ![t] = None] /\ Goes(t, "idle")
           /\ UNCHANGED <<key, handle, free, pos, lock, entry, pins, gets>>
Release(t) ==
  /\ pc[t] = "idle" /\ got[t] # <<>> /\ got' = [got EXCEPT ![t] = <<>>]
  /\ pins' = IF got[t][2] = None THEN pins ELSE [pins EXCEPT ![got[t][2]] = @ \ {t}]
  /\ UNCHANGED <<pc, key, handle, free, pos, buf, lock, entry, gets>>
Next == \E t \in Threads : Call(t) \/ Lock(t) \/ Look(t) \/ Take(t) \/ Seek(t) \/ Early(t) \/ Read(t) \/ Give(t) \/ Fail(t) \/ Keep(t) \/ Done(t) \/ Release(t)
Spec == Init /\ [][Next]_vars
(* what was got is the item of its key, and its entry still has it *)
Right == \A t \in Threads : (pc[t] = "idle" /\ got[t] # <<>>) => got[t][1] = key[t] /\ (got[t][2] # None => entry[got[t][2]] = key[t] /\ t \in pins[got[t][2]])
OneEach == \A t, u \in Threads : (handle[t] # None /\ handle[t] = handle[u] /\ t # u) => FALSE
Quiet == \A t \in Threads : pc[t] = "idle"
AllBack == Quiet => free = Handles /\ lock = None
Unpinned == (Quiet /\ \A t \in Threads : got[t] = <<>>) => \A n \in Entries : pins[n] = {}
OneEntry == CACHED => \A m, n \in Entries : entry[m] = entry[n] /\ entry[m] # None => m = n
=============================================================================
