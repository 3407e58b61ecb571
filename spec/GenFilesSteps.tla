--------------------------- MODULE GenFilesSteps ---------------------------
(* a shortest history to every transition of the protocol of temporary files  *)
(* (Files.tla) used by one process, for replay: copies are made in two        *)
(* folders, found, held open, written to, deleted, and the master replaced.   *)
EXTENDS Files, TLC, Json
CONSTANTS MaxFiles, MaxOpen, Contents, PathLists
SomeContents == {<<5, -1>>, <<5, 3>>}
MoreContents == SomeContents \union {<<6, -1>>}
SomeLists == { <<1>>, <<0, 1>> }
MoreLists == { <<1>>, <<0>>, <<0, 1>>, <<1, 0>> }
VARIABLES fs, made, open, hist
Dirs == {0, 1}
Master == <<109, 46, 100>>
NameOfCopy(k) == Stem(Master) \o <<45, 49, 45>> \o [i \in 1..UniqueLen |-> 64 + k]
P(list) == [i \in 1..Len(list) |-> <<list[i], 5>>]
Init == fs = {<<0, Master, <<5, -1>>>>} /\ made = <<>> /\ open = <<>> /\ hist = <<>>
There(i) == Exists(fs, made[i][1], made[i][2])
Note(x) == hist' = Append(hist, x)
Replace == \E c \in Contents : fs' = Put(fs, 0, Master, c) /\ Note(<<"w", c>>) /\ UNCHANGED <<made, open>>
New == \E l \in PathLists : LET i == FirstUsable(Dirs, P(l), TempLen(Master, <<49>>), 99) IN
         /\ Len(made) < MaxFiles /\ i > 0
         /\ made' = Append(made, <<l[i], NameOfCopy(Len(made) + 1)>>)
         /\ fs' = Put(fs, l[i], NameOfCopy(Len(made) + 1), ContentOf(fs, 0, Master))
         /\ Note(<<"n", l>>) /\ UNCHANGED open
Write == \E i \in 1..Len(made), c \in Contents : There(i) /\ fs' = Put(fs, made[i][1], made[i][2], c) /\ Note(<<"W", i, c>>) /\ UNCHANGED <<made, open>>
Find == \E l \in PathLists, b \in {-1, 2} : Note(<<"f", l, b>>) /\ UNCHANGED <<fs, made, open>>
Hold == \E i \in 1..Len(made) : /\ There(i) /\ Cardinality({j \in 1..Len(open) : open[j] # 0}) < MaxOpen
          /\ open' = Append(open, i) /\ Note(<<"h", i>>) /\ UNCHANGED <<fs, made>>
Unhold == \E j \in 1..Len(open) : open[j] # 0 /\ open' = [open EXCEPT ![j] = 0] /\ Note(<<"e", j>>) /\ UNCHANGED <<fs, made>>
InUse == {f \in fs : \E j \in 1..Len(open) : open[j] # 0 /\ f[1] = made[open[j]][1] /\ f[2] = made[open[j]][2]}
Unused == \E l \in PathLists, b \in {-1, 2} : /\ fs' = fs \ (AllCopies(fs, Dirs, 0, Master, P(l), b) \ InUse) /\ Note(<<"u", l, b>>) /\ UNCHANGED <<made, open>>
Delete == \E i \in 1..Len(made) : There(i) /\ fs' = Without(fs, made[i][1], made[i][2]) /\ Note(<<"d", i>>) /\ UNCHANGED <<made, open>>
Spec == Init /\ [][Replace \/ New \/ Write \/ Find \/ Hold \/ Unhold \/ Unused \/ Delete]_<<fs, made, open, hist>>
View == <<fs, made, [i \in 1..Len(made) |-> Cardinality({j \in 1..Len(open) : open[j] = i})]>>
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
