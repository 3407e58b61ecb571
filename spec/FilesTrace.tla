----------------------------- MODULE FilesTrace -----------------------------
EXTENDS TraceBase, Files
VARIABLES tr, l, fs, dirs, held
vars == <<tr, l, fs, dirs, held>>
e == Traces[tr][l]
pid == Traces[tr][1].pid
Clean == /\ e.odirs = 0 /\ e.live = 0 /\ e.outside = 0 /\ e.mask = 1
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Seen == /\ Len(e.ls) = Cardinality(fs') /\ fs' = {e.ls[i] : i \in 1..Len(e.ls)}
        /\ dirs' = {e.dirs[i] : i \in 1..Len(e.dirs)}
Open == Cardinality({i \in 1..Len(held) : held[i] # <<>>})
(* an operation on files, after which only the files held are open *)
Op(name) == Take /\ e.e = name /\ Clean /\ e.open = Open
Init == tr \in 1..NTraces /\ l = 2 /\ held = <<>> /\ fs = {} /\ dirs = {0, 1, 2, 5} /\ Traces[tr][1].e = "start" /\ Traces[tr][1].ls = <<>> /\ Traces[tr][1].dirs = <<0, 1, 2, 5>>
(* a file which was removed while it was open is no longer the one of its name *)
Still == held' = [i \in 1..Len(held) |-> IF held[i] = <<>> \/ \E f \in fs' : <<f[1], f[2]>> = held[i] THEN held[i] ELSE <<-1>>]
Ok == e.st = "ok"
There == Exists(fs, e.d, e.dn)
This == ContentOf(fs, e.d, e.dn)
\* ---------------------------------------------------------------- operations
Write ==
  /\ Op("write") /\ UNCHANGED <<dirs, held>>
  /\ IF Ok THEN e.d \in dirs /\ fs' = Put(fs, e.d, e.dn, e.c)
     ELSE /\ e.fault = 1 \/ e.d \notin dirs
          /\ \E f \in {Without(fs, e.d, e.dn)} \union {Put(fs, e.d, e.dn, e.ls[i][3]) : i \in 1..Len(e.ls)} : fs' = f /\ (e.d \notin dirs => f = fs)
  /\ Seen
Copy ==
  /\ Op("copy") /\ UNCHANGED dirs
  /\ IF Ok THEN There /\ e.to \in dirs /\ fs' = Put(fs, e.to, e.ton, This)
     ELSE /\ e.fault = 1 \/ ~There \/ e.to \notin dirs
          /\ fs' \in {fs, Without(fs, e.to, e.ton)}
          /\ e.fault = 0 => fs' = fs
  /\ Seen /\ Still
Delete ==
  /\ Op("delete") /\ UNCHANGED dirs
  /\ IF Ok THEN There /\ fs' = Without(fs, e.d, e.dn)
     ELSE (e.fault = 1 \/ (~There /\ e.st = "notfound")) /\ UNCHANGED fs
  /\ Seen /\ Still
MakeDir ==
  /\ Op("mkdir") /\ UNCHANGED <<fs, held>>
  /\ IF e.d \in dirs THEN e.st = "exists" /\ UNCHANGED dirs
     ELSE IF CanMake(dirs, e.d) THEN Ok /\ dirs' = dirs \union {e.d}
     ELSE ~Ok /\ UNCHANGED dirs
  /\ Seen
Size ==
  /\ Op("size") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ e.r = (IF There THEN This[1] ELSE -1) \/ (e.fault = 1 /\ e.r = -1)
Read ==
  /\ Op("read") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ IF Ok THEN There /\ e.c = This
     ELSE e.left = 0 /\ (e.fault = 1 \/ ~There \/ This[1] = 0)
\* ----------------------------------------------------------- temporary files
Paths == Searched(e.paths)
Find ==
  /\ Op("find") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ LET i == FirstWithCopies(fs, dirs, e.d, e.dn, Paths, e.bytes) IN
     IF e.ok = 1
     THEN \E k \in 1..Len(Paths) :
            /\ e.fault = 0 => k = i
            /\ \E f \in Copies(fs, dirs, e.d, e.dn, Paths[k], e.bytes) : f[1] = e.to /\ f[2] = e.ton /\ e.len = Paths[k][2] + Len(f[2])
     ELSE (e.fault = 1 \/ i = 0) /\ e.len = 0
InUse == {f \in fs : \E i \in 1..Len(held) : held[i] = <<f[1], f[2]>>}
Unused ==
  /\ Op("unused") /\ UNCHANGED <<dirs, held>>
  /\ fs' = {e.ls[i] : i \in 1..Len(e.ls)} /\ fs' \subseteq fs
  /\ LET all == AllCopies(fs, dirs, e.d, e.dn, Paths, e.bytes) \ InUse  gone == fs \ fs' IN
     /\ gone \subseteq all /\ e.r = Cardinality(gone)
     /\ e.fault = 0 => gone = all
  /\ Seen
Created(name(_)) ==
  LET new == {e.ls[i] : i \in 1..Len(e.ls)} \ fs IN
  /\ There
  /\ new = {<<e.to, e.ton, This>>} /\ ~Exists(fs, e.to, e.ton)
  /\ name(e.ton) /\ fs' = fs \union new
NewTemp ==
  /\ Op("new") /\ UNCHANGED <<dirs, held>>
  /\ LET i == FirstUsable(dirs, Paths, TempLen(e.dn, pid), e.length) IN
     IF Ok
     THEN /\ Created(LAMBDA n : IsTempName(n, e.dn, pid)) /\ e.ended = 1
          /\ \E k \in 1..Len(Paths) : (e.fault = 0 => k = i) /\ Paths[k][1] = e.to /\ e.len = Paths[k][2] + Len(e.ton)
     ELSE /\ e.fault = 1 \/ i = 0 \/ ~There
          /\ UNCHANGED fs /\ e.len = 0 /\ (e.length > 0 => e.ended = 1)
  /\ Seen
Legacy ==
  /\ Op("legacy") /\ UNCHANGED <<dirs, held>>
  /\ LET i == FirstUsable(dirs, Paths, UniqueLen + 1, MaxPath) IN
     IF Ok
     THEN /\ Created(IsLegacyName)
          /\ \E k \in 1..Len(Paths) : (e.fault = 0 => k = i) /\ Paths[k][1] = e.to /\ e.len = Paths[k][2] + Len(e.ton)
     ELSE /\ e.fault = 1 \/ i = 0 \/ ~There
          /\ UNCHANGED fs /\ e.len = 0
  /\ Seen
Name ==
  /\ Op("name") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ e.before = 1
  /\ IF Ok THEN e.ended = 1 /\ IsTempName(e.r, From(e.m, BaseAt(e.m)), pid) /\ Len(e.r) < e.length
     ELSE /\ e.fault = 1 \/ TempLen(From(e.m, BaseAt(e.m)), pid) >= e.length \/ Len(Stem(From(e.m, BaseAt(e.m)))) >= MaxPath
          /\ e.length > 0 => (e.ended = 1 /\ e.r = <<>>) \/ Len(Stem(From(e.m, BaseAt(e.m)))) >= MaxPath
\* ----------------------------------------------------------------- the rest
Base ==
  /\ Op("base") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ e.at + 1 = BaseAt(e.s)
DirOf(name) == IF name = <<100, 49>> THEN <<1, 5>> ELSE IF name = <<101, 46, 120>> THEN <<2, -1>> ELSE IF name = <<46>> THEN <<0, -1>> ELSE IF name = <<110, 111, 110, 101>> THEN <<3, -1>> ELSE <<-1, -1>>
Path ==
  /\ Op("path") /\ UNCHANGED <<fs, dirs, held>> /\ Seen
  /\ LET c == DirOf(e.f)
         i == FirstIndex(c, LAMBDA d : Exists(fs, d, e.m))
         n == e.rlen + 1 + Len(e.f) + 1 + Len(e.m) - (IF i = 2 THEN 3 ELSE 0) IN
     IF Ok THEN /\ i > 0 /\ e.ton = e.m /\ e.len < e.size /\ e.ended = 1
                /\ (e.to = c[i] /\ e.len = n) \/ (e.fault = 1 /\ e.to \in {c[1], c[2]} /\ Exists(fs, e.to, e.m))
     ELSE e.fault = 1 \/ i = 0 \/ n >= e.size
Hold ==
  /\ Take /\ e.e = "hold" /\ Clean /\ UNCHANGED <<fs, dirs>> /\ Seen
  /\ IF Ok THEN There /\ held' = Append(held, <<e.d, e.dn>>) ELSE ~There /\ e.st = "notfound" /\ UNCHANGED held
  /\ e.open = Open + (IF Ok THEN 1 ELSE 0)
Unhold ==
  /\ Take /\ e.e = "unhold" /\ Clean /\ UNCHANGED <<fs, dirs>> /\ Seen
  /\ held' = [held EXCEPT ![e.i] = <<>>] /\ e.open = Open - 1
End == Take /\ e.e = "end" /\ Clean /\ e.open = 0 /\ UNCHANGED <<fs, dirs, held>> /\ Seen
Next == Write \/ Copy \/ Delete \/ MakeDir \/ Size \/ Read \/ Find \/ Unused \/ NewTemp \/ Legacy \/ Name \/ Base \/ Path \/ Hold \/ Unhold \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
