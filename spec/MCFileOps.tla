----------------------------- MODULE MCFileOps -----------------------------
(* Writing, copying and deleting files (Files.tla): only the file named       *)
(* changes, whatever was there; comparing the start of contents.              *)
EXTENDS Files, TLC
VARIABLES fs, last
vars == <<fs, last>>
Dirs == {0, 1}
Names == {<<97>>, <<98>>}
Contents == {<<0, -1>>, <<2, -1>>, <<2, 0>>, <<2, 1>>, <<3, -1>>}
Init == fs = {} /\ last = <<-1, <<>>>>
Write == \E d \in Dirs, n \in Names, c \in Contents : fs' = Put(fs, d, n, c) /\ last' = <<d, n>>
Delete == \E d \in Dirs, n \in Names : Exists(fs, d, n) /\ fs' = Without(fs, d, n) /\ last' = <<d, n>>
Copy == \E d, e \in Dirs, n, m \in Names : Exists(fs, d, n) /\ <<d, n>> # <<e, m>> /\ fs' = Put(fs, e, m, ContentOf(fs, d, n)) /\ last' = <<e, m>>
Next == Write \/ Delete \/ Copy
Spec == Init /\ [][Next]_vars
OneOfEach == \A f, g \in fs : f[1] = g[1] /\ f[2] = g[2] => f = g
OnlyThat == [][\A d \in Dirs, n \in Names : <<d, n>> # last' => (Exists(fs, d, n) <=> Exists(fs', d, n)) /\ (Exists(fs, d, n) => ContentOf(fs, d, n) = ContentOf(fs', d, n))]_vars
Written == last[1] >= 0 => \A f \in fs : f[1] = last[1] /\ f[2] = last[2] => f[3] \in Contents
Comparing == \A a, b \in Contents, n \in -1..3 : /\ SameStart(a, a, n) /\ (SameStart(a, b, n) <=> SameStart(b, a, n))
                                                   /\ (SameStart(a, b, -1) <=> a = b) /\ (SameStart(a, b, 3) <=> a = b)
                                                   /\ (n > 0 /\ SameStart(a, b, n) => SameStart(a, b, n - 1))
=============================================================================
