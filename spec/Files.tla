------------------------------- MODULE Files -------------------------------
(* A file system as the library uses it, and what its file operations and     *)
(* temporary file protocol have to do with it.                                *)
(*   fs    the files: a set of <<folder, name, content>>; a content is         *)
(*         <<length, place>>, the place where it differs from the others of    *)
(*         its length (-1 nowhere)                                            *)
(*   dirs  the folders which exist                                            *)
EXTENDS Text
CONSTANT MaxPath
Exists(fs, d, n) == \E f \in fs : f[1] = d /\ f[2] = n
ContentOf(fs, d, n) == (CHOOSE f \in fs : f[1] = d /\ f[2] = n)[3]
Without(fs, d, n) == {f \in fs : f[1] # d \/ f[2] # n}
Put(fs, d, n, c) == Without(fs, d, n) \union {<<d, n, c>>}
(* the folder above *)
Above(d) == IF d \in {1, 2, 3} THEN 0 ELSE IF d = 4 THEN 1 ELSE -1
CanMake(dirs, d) == Above(d) \in dirs
(* the same bytes in the first n, and the same length. All of them when n < 0  *)
SameStart(a, b, n) == /\ a[1] = b[1]
                      /\ IF n < 0 THEN a = b ELSE a[2] = b[2] \/ ((a[2] < 0 \/ a[2] >= n) /\ (b[2] < 0 \/ b[2] >= n))
LastOf(s, cs) == LET S == {i \in 1..Len(s) : s[i] \in cs} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* the name of a file without its path, and without its extension             *)
BaseAt(path) == LastOf(path, {47, 92}) + 1
Stem(name) == LET d == LastOf(name, {46}) IN IF d = 0 THEN name ELSE SubSeq(name, 1, d - 1)
IsUpper(c) == c >= 65 /\ c <= 90
AllUpper(s) == \A i \in 1..Len(s) : IsUpper(s[i])
UniqueLen == 20
(* <stem>-<process>-<20 letters> *)
IsTempName(n, master, pid) ==
  LET p == Stem(master) \o <<45>> \o pid \o <<45>> IN
  Starts(n, p) /\ Len(n) = Len(p) + UniqueLen /\ AllUpper(From(n, Len(p) + 1))
TempLen(master, pid) == Len(Stem(master)) + 1 + Len(pid) + 1 + UniqueLen
IsLegacyName(n) == Len(n) = UniqueLen - 1 /\ AllUpper(n)
(* a path is <<folder, length with the slash>>                                *)
Here == <<0, 0>>
Searched(paths) == IF paths = <<>> THEN <<Here>> ELSE paths
Usable(dirs, p) == p[1] \in dirs /\ p[2] + 1 < MaxPath
(* the copies of the master in a path                                         *)
Copies(fs, dirs, d, n, p, bytes) ==
  IF ~Exists(fs, d, n) \/ ~Usable(dirs, p) THEN {}
  ELSE {f \in fs : f[1] = p[1] /\ Starts(f[2], Stem(n)) /\ f[2] # n /\ SameStart(ContentOf(fs, d, n), f[3], bytes) /\ p[2] + Len(f[2]) < MaxPath}
FirstWithCopies(fs, dirs, d, n, paths, bytes) == FirstIndex(paths, LAMBDA p : Copies(fs, dirs, d, n, p, bytes) # {})
AllCopies(fs, dirs, d, n, paths, bytes) == UNION {Copies(fs, dirs, d, n, paths[i], bytes) : i \in 1..Len(paths)}
(* the first path in which a file with a name of that length can be created   *)
FirstUsable(dirs, paths, name, room) == FirstIndex(paths, LAMBDA p : p[1] \in dirs /\ p[2] + name < room /\ p[2] + name < MaxPath)
=============================================================================
