----------------------------- MODULE Wrappers -----------------------------
(* The C++ classes: values of a type and the reasons for not having one,      *)
(* evidence, required properties, the keys of an engine, and what else is     *)
(* made of the C structures.                                                  *)
EXTENDS Properties, Evidence
White == {9, 10, 11, 12, 13, 32}
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[1] \in White THEN Trim(Tail(s)) ELSE s
Minus == 45  Plus == 43  Point == 46
Negative(s) == s # <<>> /\ s[1] = Minus
Unsigned(s) == IF s # <<>> /\ s[1] \in {Minus, Plus} THEN Tail(s) ELSE s
DigitsAt(s, i) == LET S == {j \in i..Len(s) : ~IsDigit(s[j])} IN IF S = {} THEN SubSeq(s, i, Len(s)) ELSE SubSeq(s, i, Least(S) - 1)
Signed(neg, n) == IF neg THEN 0 - n ELSE n
(* ---- a value as each of the types *)
AsBool(v) == IF v = <<84, 114, 117, 101>> THEN 1 ELSE 0
AsInteger(v) == LET s == Trim(v) IN Signed(Negative(s), NumberOf(DigitsAt(Unsigned(s), 1)))
RECURSIVE Padded(_, _)
Padded(q, n) == IF Len(q) >= n THEN SubSeq(q, 1, n) ELSE Padded(Append(q, 48), n)
(* the power of ten which follows a number at i *)
Exponent(u, i) ==
  IF Len(u) > i /\ u[i] \in {69, 101}
  THEN LET neg == u[i + 1] = Minus d == DigitsAt(u, IF u[i + 1] \in {Minus, Plus} THEN i + 2 ELSE i + 1)
       IN IF d = <<>> THEN 0 ELSE Signed(neg, NumberOf(d))
  ELSE 0
TooLarge == -77
(* in millionths, unless there are 2000 or more *)
AsMillionths(v) ==
  LET s == Trim(v) u == Unsigned(s) whole == DigitsAt(u, 1) n == Len(whole)
      point == Len(u) > n /\ u[n + 1] = Point
      frac == IF point THEN DigitsAt(u, n + 2) ELSE <<>>
      e == IF whole = <<>> /\ frac = <<>> THEN 0 ELSE Exponent(u, n + Len(frac) + (IF point THEN 2 ELSE 1))
      digits == Padded(<<48, 48, 48>> \o whole \o frac, Max2(n + Len(frac) + 3, n + e + 9))
      units == NumberOf(SubSeq(digits, 1, n + e + 3))
  IN IF units >= 2000 THEN TooLarge ELSE Signed(Negative(s), units * 1000000 + NumberOf(SubSeq(digits, n + e + 4, n + e + 9)))
Bar == 124
Invalid == 2  TooMany == 5  Unknown == 7
(* what a get gives: whether there is a value, the value or the reason *)
Absent(r, m) == [has |-> 0, reason |-> r, msg |-> m, value |-> 0]
Present(v) == [has |-> 1, reason |-> Unknown, msg |-> 0, value |-> v]
Typed(type, q) ==
  CASE type = "L" -> Present(q)
    [] q = <<>> -> Absent(Unknown, 0)
    [] type = "S" -> Present(JoinWith(q, Bar))
    [] Len(q) > 1 -> Absent(TooMany, 0)
    [] type = "B" -> Present(AsBool(q[1]))
    [] type = "I" -> Present(AsInteger(q[1]))
    [] OTHER -> Present(AsMillionths(q[1]))
(* the exception of a value which isn't there, and its message: 0 empty, 1 *)
(* that of the results, 2 the one of the exception *)
Thrown(r) == IF r = Invalid THEN "invalid" ELSE IF r = TooMany THEN "many" ELSE "no"
OfMessage(m) == IF m = 0 THEN 2 ELSE IF m = 1 THEN 1 ELSE 0
Whats(r, m) == IF r = TooMany THEN {2} ELSE IF r \in {0, Invalid, 3, 4, Unknown} THEN {OfMessage(m)} ELSE {2, OfMessage(m)}
(* ---- evidence: pairs in the order of their keys *)
KeyPlace(ev, k) == FirstIndex(ev, LAMBDA p : p.key = k)
WithPair(ev, k, v) ==
  IF KeyPlace(ev, k) # 0 THEN [ev EXCEPT ![KeyPlace(ev, k)].value = v]
  ELSE SelectSeq(ev, LAMBDA p : OrderFrom(p.key, k, 1) < 0) \o <<[key |-> k, value |-> v]>> \o SelectSeq(ev, LAMBDA p : OrderFrom(p.key, k, 1) > 0)
RECURSIVE GivenFrom(_, _, _)
GivenFrom(ev, mask, prefixes) ==
  IF ev = <<>> THEN <<>>
  ELSE LET p == PrefixOf(ev[1].key)
           is == p # 0 /\ (mask < 0 \/ HasBit(mask, p))
           one == [prefix |-> p, field |-> From(ev[1].key, Len(NameOfPrefix(p)) + 1), value |-> ev[1].value]
       IN (IF is /\ HasBit(prefixes, p) THEN <<one>> ELSE <<>>) \o GivenFrom(Tail(ev), mask, prefixes)
Relevant(ev, mask) == SelectSeq(ev, LAMBDA x : LET p == PrefixOf(x.key) IN p # 0 /\ (mask < 0 \/ HasBit(mask, p)))
(* ---- required properties *)
NamesOf(req) == IF req.how = "list" THEN req.names ELSE IF req.how = "string" THEN Pieces(req.str, NameSeps) ELSE <<>>
(* ---- keys *)
HeaderDot == <<104, 101, 97, 100, 101, 114, 46>>
QueryDot == <<113, 117, 101, 114, 121, 46>>
CookieDot == <<99, 111, 111, 107, 105, 101, 46>>
UpperHttp == <<72, 84, 84, 80, 95>>
Upper51D == <<53, 49, 68, 95>>
RECURSIVE Distinct(_, _)
Distinct(q, acc) == IF q = <<>> THEN acc ELSE Distinct(Tail(q), IF \E i \in 1..Len(acc) : acc[i] = q[1] THEN acc ELSE Append(acc, q[1]))
KeysOf(headers, over, upper, prefix) ==
  LET plain == SelectSeq(headers, LAMBDA h : ~IsPseudo(h))
      h == FlatOf([i \in 1..Len(plain) |-> LET n == (IF upper = 1 THEN UpperHttp ELSE <<>>) \o plain[i] IN <<HeaderDot \o n, QueryDot \o n>>])
      o == FlatOf([i \in 1..Len(over) |-> LET n == (IF prefix = 1 THEN Upper51D ELSE <<>>) \o over[i] IN <<CookieDot \o n, QueryDot \o n>>])
  IN Distinct(h \o o, <<>>)
(* ---- keys of values, which are ordered by property, then by name *)
KeyOrder(p, v, q, w) == IF p = q THEN OrderFrom(v, w, 1) ELSE OrderFrom(p, q, 1)
=============================================================================
