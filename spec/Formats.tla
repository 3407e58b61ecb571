------------------------------ MODULE Formats ------------------------------
(* The text formats read by the library: IP addresses (ip.c), lines of text    *)
(* files (textfile.c), key value pairs of yaml files (yamlfile.c), strings     *)
(* (string.c) and floats (float.c).                                            *)
EXTENDS Text
Dot == 46  Colon == 58
SplitText(s, seps) == Split(s, seps)
Last(q) == q[Len(q)]
(* ---- addresses: the type is given by the first dot or colon *)
V4 == 0  V6 == 1  NoIp == 2
IpType(s) == LET i == FirstIndex(s, LAMBDA c : c = Dot \/ c = Colon)
             IN IF i = 0 THEN NoIp ELSE IF s[i] = Dot THEN V4 ELSE V6
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
IsNumber(s) == Len(s) \in 1..9 /\ AllDigits(s)
IsHex(c) == IsDigit(c) \/ LowerOf(c) \in 97..102
HexOf(c) == IF IsDigit(c) THEN c - 48 ELSE LowerOf(c) - 87
IsGroup(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : IsHex(s[i])
RECURSIVE GroupOf(_)
GroupOf(s) == IF s = <<>> THEN 0 ELSE GroupOf(SubSeq(s, 1, Len(s) - 1)) * 16 + HexOf(Last(s))
ByteOf(s) == Min2(NumberOf(s), 255)
Pad(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
(* version 4: numbers between dots, of which the first four count *)
V4Parts(s) == Split(s, {Dot, Colon})
V4Ok(s) == IpType(s) = V4 /\ LET q == V4Parts(s) IN \A i \in 1..Len(q) : IsNumber(q[i])
V4Bytes(s) == LET q == V4Parts(s) IN Pad([i \in 1..Len(q) |-> ByteOf(q[i])], 4)
(* version 6: groups between colons, of which one can be empty for the zeros   *)
(* left out (at an end it shows as two), the last can be a version 4 address *)
QuadOk(g) == LET q == Split(g, {Dot}) IN Len(q) = 4 /\ \A i \in 1..4 : IsNumber(q[i])
QuadBytes(g) == LET q == Split(g, {Dot}) IN [i \in 1..4 |-> ByteOf(q[i])]
GroupBytes(g) == IF QuadOk(g) THEN QuadBytes(g) ELSE <<GroupOf(g) \div 256, GroupOf(g) % 256>>
GroupsOk(q) == \A i \in 1..Len(q) : IsGroup(q[i]) \/ (i = Len(q) /\ QuadOk(q[i]))
RECURSIVE BytesOf(_)
BytesOf(q) == IF q = <<>> THEN <<>> ELSE GroupBytes(q[1]) \o BytesOf(Tail(q))
Gaps(s) == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon}
Groups(s) == IF s = <<>> THEN <<>> ELSE Split(s, {Colon})
Head6(s) == LET g == Gaps(s) IN IF g = {} THEN Groups(s) ELSE Groups(SubSeq(s, 1, Least(g) - 1))
Tail6(s) == LET g == Gaps(s) IN IF g = {} THEN <<>> ELSE Groups(From(s, Least(g) + 2))
V6Ok(s) == /\ IpType(s) = V6 /\ Cardinality(Gaps(s)) <= 1
           /\ \A i \in 1..Len(Head6(s)) : IsGroup(Head6(s)[i]) \/ (i = Len(Head6(s)) /\ Gaps(s) = {} /\ QuadOk(Head6(s)[i]))
           /\ GroupsOk(Tail6(s))
V6Bytes(s) ==
  LET a == BytesOf(Head6(s)) b == BytesOf(Tail6(s))
      n == 16 - Len(a) - Len(b)
      z == IF Gaps(s) = {} \/ n < 0 THEN <<>> ELSE [i \in 1..n |-> 0]
  IN Pad(a \o z \o b, 16)
(* what the item parsed from s says *)
IpGives(s, x) == /\ x.type = IpType(s)
                 /\ V4Ok(s) => x.b = V4Bytes(s)
                 /\ V6Ok(s) => x.b = V6Bytes(s)
(* a list of addresses; one item could not be allocated (0: all could) *)
IpPieces(s) == IF s = <<>> THEN <<>> ELSE Split(s, {32, 44})
Without(q, n) == IF n = 0 THEN q ELSE SubSeq(q, 1, n - 1) \o From(q, n + 1)
IpOrder(a, b, t) == IF t = V4 THEN OrderFrom(SubSeq(a, 1, 4), SubSeq(b, 1, 4), 1)
                    ELSE IF t = V6 THEN OrderFrom(SubSeq(a, 1, 16), SubSeq(b, 1, 16), 1) ELSE 0
(* ---- text files: the lines which are not empty, in order *)
LineEnds == {10, 13}
Lines(s) == Pieces(s, LineEnds)
NotEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)
(* ---- yaml files *)
Dashes == <<45, 45, 45>>
Dots == <<46, 46, 46>>
Quote == 39
PairOk(s) == /\ s # <<>> /\ s[1] \notin {45, 46, Colon}
             /\ LET i == FirstIndex(s, LAMBDA c : c = Colon) IN i > 1 /\ (i = Len(s) \/ s[i + 1] = 32)
Cut(s, n) == SubSeq(s, 1, Min2(Len(s), n - 1))
PairOf(s, kl, vl) ==
  LET i == FirstIndex(s, LAMBDA c : c = Colon)
      v == From(s, i + 2)
      w == IF v # <<>> /\ v[1] = Quote THEN Cut(Tail(v), vl) ELSE Cut(v, vl)
      x == IF v # <<>> /\ v[1] = Quote /\ w # <<>> /\ Last(w) = Quote THEN SubSeq(w, 1, Len(w) - 1) ELSE w
  IN [k |-> Cut(SubSeq(s, 1, i - 1), kl), v |-> x]
YamlOk(s) == \A q \in {Lines(s)} : \A i \in 1..Len(q) : Starts(q[i], Dashes) \/ Starts(q[i], Dots) \/ PairOk(q[i])
RECURSIVE Docs(_, _, _, _, _, _, _)
Docs(lines, pairs, docs, limit, size, kl, vl) ==
  LET emit == IF pairs = <<>> THEN docs ELSE Append(docs, SubSeq(pairs, 1, Min2(Len(pairs), size))) IN
  IF lines = <<>> \/ Starts(lines[1], Dots) THEN emit
  ELSE IF Starts(lines[1], Dashes)
  THEN IF pairs # <<>> /\ Len(emit) = limit THEN emit
       ELSE Docs(Tail(lines), <<>>, emit, limit, size, kl, vl)
  ELSE Docs(Tail(lines), Append(pairs, PairOf(lines[1], kl, vl)), docs, limit, size, kl, vl)
(* ---- strings *)
SubAt(a, b) ==
  IF b = <<>> THEN -1
  ELSE LET S == {i \in 0..(Len(a) - Len(b)) : SameText(SubSeq(a, i + 1, i + Len(b)), b)} IN IF S = {} THEN -1 ELSE Least(S)
(* ---- floats: <<sign, exponent, mantissa>> *)
MantMax == 8388607
IsZeroF(f) == f[2] = 0 /\ f[3] = 0
IsInfF(f) == f[2] = 255 /\ f[3] = 0
IsNanF(f) == f[2] = 255 /\ f[3] # 0
(* the native float of the data's, and the data's of the native one *)
ToNative(f, n) == IF IsZeroF(f) THEN IsZeroF(n)
                  ELSE IF f[2] = 255 THEN (IF f[3] = MantMax THEN IsInfF(n) ELSE IsNanF(n))
                  ELSE n = f
FromNative(n, f) == IF IsZeroF(n) THEN IsZeroF(f)
                    ELSE IF IsInfF(n) THEN f[2] = 255 /\ f[3] = MantMax
                    ELSE IF IsNanF(n) THEN f[2] = 255 /\ f[3] # MantMax
                    ELSE f = n
(* ---- messages *)
NotSet == 7
Inserted(base, name, m) == \/ m = base
                           \/ Len(name) > 0 /\ \E i \in 0..Len(base) :
                                 /\ i + Len(name) <= Len(m) /\ m[i + 1] = name[1] /\ m[i + Len(name)] = name[Len(name)]
                                 /\ m = SubSeq(base, 1, i) \o name \o From(base, i + 1)
(* the statuses which there are: others have a text with their number *)
Known(st) == st \in 0..35
(* a text which has the code a is the same for the code b *)
SameFor(m, a, n, b) == \E i \in 0..Len(m) : /\ i + Len(a) <= Len(m) /\ SubSeq(m, i + 1, i + Len(a)) = a
                                            /\ n = SubSeq(m, 1, i) \o b \o From(m, i + Len(a) + 1)
Within(s, p) == IF Len(p) = 0 THEN TRUE ELSE
                   \E i \in 0..(Len(s) - Len(p)) : /\ s[i + 1] = p[1] /\ s[i + Len(p)] = p[Len(p)]
                                                   /\ SubSeq(s, i + 1, i + Len(p)) = p
=============================================================================
