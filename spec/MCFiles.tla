------------------------------ MODULE MCFiles ------------------------------
(* The protocol of the temporary files (Files.tla) used by two processes: a   *)
(* process makes a copy of the master, or finds one, holds it open while it   *)
(* uses it, and deletes those which no process has open. The master can be    *)
(* replaced meanwhile. One action for each step on the file system.           *)
EXTENDS Files, TLC
CONSTANTS Processes, MaxFiles, GUARD      \* GUARD = FALSE deletes without looking who has it open
VARIABLES fs, held, chosen, made
vars == <<fs, held, chosen, made>>
Dirs == {0, 1}
Paths == << <<1, 10>>, <<0, 2>> >>
Master == <<109, 46, 100>>             \* m.d
Other == <<110, 46, 100>>              \* n.d
Contents == {<<3, -1>>, <<3, 1>>, <<4, -1>>}
NameOfCopy(p, k) == Stem(Master) \o <<45>> \o <<48 + p>> \o <<45>> \o [i \in 1..UniqueLen |-> 64 + k]
Init == /\ fs = {<<0, Master, <<3, -1>>>>, <<0, Other, <<3, -1>>>>} /\ held = [p \in Processes |-> {}]
        /\ chosen = [p \in Processes |-> <<>>] /\ made = {}
Replace == /\ \E c \in Contents : fs' = Put(fs, 0, Master, c)
           /\ UNCHANGED <<held, chosen, made>>
(* a copy is made and opened at once: nobody can know of it before it is there *)
New(p) ==
  /\ Cardinality(made) < MaxFiles
  /\ LET i == FirstUsable(Dirs, Paths, TempLen(Master, <<48 + p>>), 99) IN
     /\ i > 0
     /\ \E k \in 1..2 :
          LET n == NameOfCopy(p, k) f == <<Paths[i][1], n, ContentOf(fs, 0, Master)>> IN
          /\ ~Exists(fs, Paths[i][1], n)
          /\ fs' = fs \union {f} /\ made' = made \union {f} /\ held' = [held EXCEPT ![p] = @ \union {f}]
  /\ UNCHANGED chosen
(* finding and opening are two steps *)
Find(p) ==
  /\ chosen[p] = <<>>
  /\ LET i == FirstWithCopies(fs, Dirs, 0, Master, Paths, -1) IN
     /\ i > 0 /\ \E f \in Copies(fs, Dirs, 0, Master, Paths[i], -1) : chosen' = [chosen EXCEPT ![p] = f]
  /\ UNCHANGED <<fs, held, made>>
OpenFound(p) ==
  /\ chosen[p] # <<>> /\ chosen' = [chosen EXCEPT ![p] = <<>>]
  /\ held' = [held EXCEPT ![p] = IF chosen[p] \in fs THEN @ \union {chosen[p]} ELSE @]
  /\ UNCHANGED <<fs, made>>
Close(p) == \E f \in held[p] : held' = [held EXCEPT ![p] = @ \ {f}] /\ UNCHANGED <<fs, chosen, made>>
InUse == UNION {held[p] : p \in Processes}
Unused(p) ==
  /\ LET gone == AllCopies(fs, Dirs, 0, Master, Paths, -1) \ (IF GUARD THEN InUse ELSE {}) IN
     gone # {} /\ fs' = fs \ gone
  /\ UNCHANGED <<held, chosen, made>>
Next == Replace \/ \E p \in Processes : New(p) \/ Find(p) \/ OpenFound(p) \/ Close(p) \/ Unused(p)
Spec == Init /\ [][Next]_vars
(* what a process has open stays, and stays what it was when it was made *)
HeldStays == InUse \subseteq fs
(* nothing but copies which were made is ever deleted *)
OthersStay == \E f \in fs : f[2] = Other
MasterStays == Exists(fs, 0, Master)
(* what is found is a copy of what the master was at that instant; unless it was replaced it still is *)
FoundIsCopy == [][\A p \in Processes : chosen'[p] # chosen[p] /\ chosen'[p] # <<>> =>
                    chosen'[p][3] = ContentOf(fs, 0, Master) /\ chosen'[p] \in made]_vars
UniqueNames == \A f, g \in fs : f[1] = g[1] /\ f[2] = g[2] => f = g
=============================================================================
