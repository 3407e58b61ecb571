------------------------------- MODULE Text -------------------------------
(* Strings are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets
LowerOf(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerOf(s[i])]
SameText(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowerOf(a[i]) = LowerOf(b[i])
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
StartsText(s, p) == Len(s) >= Len(p) /\ SameText(SubSeq(s, 1, Len(p)), p)
From(s, i) == SubSeq(s, i, Len(s))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the pieces of s between characters of seps, empty ones included *)
Split(s, seps) ==
  LET p == <<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \in seps) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(p) - 1) |-> SubSeq(s, p[k] + 1, p[k + 1] - 1)]
Pieces(s, seps) == SelectSeq(Split(s, seps), LAMBDA x : x # <<>>)
RECURSIVE JoinWith(_, _)
JoinWith(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<sep>> \o JoinWith(Tail(q), sep)
RECURSIVE FlatOf(_)
FlatOf(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatOf(Tail(q))
(* index of the first element for which P holds, 0 when there is none *)
FirstIndex(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE Least(S)
(* lexicographic order of bytes, a proper prefix first: -1, 0 or 1 *)
RECURSIVE OrderFrom(_, _, _)
OrderFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE OrderFrom(a, b, i + 1)
TextOrder(a, b) == OrderFrom(Lower(a), Lower(b), 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE NumberOf(_)
NumberOf(s) == IF s = <<>> THEN 0 ELSE NumberOf(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
=============================================================================
