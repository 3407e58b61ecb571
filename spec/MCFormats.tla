----------------------------- MODULE MCFormats -----------------------------
(* Addresses: what is printed is parsed back; yaml and text do not depend on  *)
(* line ends or on the documents before.                                      *)
EXTENDS Formats, TLC
CONSTANT Few
VARIABLES q, g, d
vars == <<q, g, d>>
Num(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(n) == <<HexChar((n \div 4096) % 16), HexChar((n \div 256) % 16), HexChar((n \div 16) % 16), HexChar(n % 16)>>
Numbers == IF Few THEN {0, 7, 255} ELSE {0, 9, 10, 99, 100, 255}
Group == {0, 1, 65535}
Print4(x) == Num(x[1]) \o <<Dot>> \o Num(x[2]) \o <<Dot>> \o Num(x[3]) \o <<Dot>> \o Num(x[4])
(* groups i..j left out, when they are zeros *)
Print6(x, i, j) == LET p(s) == JoinWith([k \in 1..Len(s) |-> Hex4(s[k])], Colon) IN
  IF i = 0 THEN p(x) ELSE p(SubSeq(x, 1, i - 1)) \o <<Colon, Colon>> \o p(SubSeq(x, j + 1, 8))
Bytes6(x) == [k \in 1..16 |-> IF k % 2 = 1 THEN x[(k + 1) \div 2] \div 256 ELSE x[k \div 2] % 256]
Line == {<<>>, <<45, 45, 45>>, <<46, 46, 46>>, <<97, 58, 32, 98>>, <<97, 58, 32, 39, 99, 39>>, <<98, 58>>}
Zero4 == [k \in 1..4 |-> 0]
Zero8 == [k \in 1..8 |-> 0]
Init == /\ d = <<>>
        /\ \/ q \in [1..4 -> Numbers] /\ g = Zero8
           \/ q = Zero4 /\ g \in {[k \in 1..8 |-> IF k \in S THEN v ELSE 0] : S \in SUBSET (1..8), v \in Group}
Next == Len(d) < (IF Few THEN 3 ELSE 4) /\ q = Zero4 /\ g = Zero8 /\ UNCHANGED <<q, g>> /\ \E x \in Line : d' = Append(d, x)
Spec == Init /\ [][Next]_vars
Zeros(x, i, j) == \A k \in i..j : x[k] = 0
Ip4 == LET s == Print4(q) IN V4Ok(s) /\ V4Bytes(s) = q
Ip6 == \A i \in 0..8 : \A j \in i..8 :
         (IF i = 0 THEN j = 0 ELSE Zeros(g, i, j)) =>
           LET s == Print6(g, i, j) IN V6Ok(s) /\ V6Bytes(s) = Bytes6(g)
Text(e) == FlatOf([k \in 1..Len(d) |-> d[k] \o e])
Pairs(e) == Docs(Lines(Text(e)), <<>>, <<>>, 99, 9, 9, 9)
(* any line end, and none after the last line, mean the same *)
Ends == /\ Lines(Text(<<10>>)) = NotEmpty(d) /\ Lines(Text(<<13, 10>>)) = NotEmpty(d)
        /\ (d # <<>> => Lines(SubSeq(Text(<<10>>), 1, Len(Text(<<10>>)) - 1)) = NotEmpty(d))
(* a limit cuts the documents, and shorter buffers cut the keys and values *)
Limits == \A n \in 1..3 : LET all == Pairs(<<10>>) some == Docs(Lines(Text(<<10>>)), <<>>, <<>>, n, 9, 9, 9) IN
            Len(some) <= Len(all) /\ some = SubSeq(all, 1, Len(some)) /\ (Len(all) >= n => Len(some) >= n)
Sizes == \A n \in 1..2 : LET all == Pairs(<<10>>) some == Docs(Lines(Text(<<10>>)), <<>>, <<>>, 99, n, 9, 9) IN
            /\ Len(some) = Len(all) /\ \A k \in 1..Len(all) : some[k] = SubSeq(all[k], 1, Min2(n, Len(all[k])))
NoEmptyDoc == \A k \in 1..Len(Pairs(<<10>>)) : Pairs(<<10>>)[k] # <<>>
=============================================================================
