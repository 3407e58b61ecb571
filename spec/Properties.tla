---------------------------- MODULE Properties ----------------------------
(* The properties required of a data set (properties.c) and the overrides of  *)
(* their values from evidence (overrides.c).                                  *)
EXTENDS Text
NameSeps == {124, 44, 32}                       \* pipe, comma, space
(* ---- required properties. Names of a data set differ in more than case. *)
IndexOf(names, n) == FirstIndex(names, LAMBDA x : SameText(x, n)) - 1
RECURSIVE Chosen(_, _, _)
Chosen(names, wanted, acc) ==
  IF wanted = <<>> THEN acc
  ELSE LET i == IndexOf(names, wanted[1]) IN
       Chosen(names, Tail(wanted), IF i < 0 \/ (\E k \in 1..Len(acc) : acc[k] = i) THEN acc ELSE Append(acc, i))
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* the indexes of the properties made available *)
Required(names, mode, wanted, str) ==
  IF mode = "array" /\ wanted # <<>> THEN SetOf(Chosen(names, wanted, <<>>))
  ELSE IF mode = "existing" THEN SetOf(Chosen(names, wanted, <<>>))
  ELSE IF mode = "string" /\ str # <<>> THEN SetOf(Chosen(names, Pieces(str, NameSeps), <<>>))
  ELSE 0..(Len(names) - 1)
(* a string which names none of the properties gives nothing at all *)
NoneFound(names, mode, str) == mode = "string" /\ str # <<>> /\ Required(names, mode, <<>>, str) = {}
Sorted(q) == \A i \in 1..(Len(q) - 1) : TextOrder(q[i], q[i + 1]) < 0
RequiredIndex(av, n) == FirstIndex(av, LAMBDA a : SameText(a.name, n)) - 1
PropertyIndex(av, i) == IF i >= 0 /\ i < Len(av) THEN av[i + 1].idx ELSE -1
SetHeaderText == <<115, 101, 116, 104, 101, 97, 100, 101, 114>>
(* ---- overrides *)
Prefix51D == <<53, 49, 100, 95>>
Skipped(prefix, n) == IF prefix = 1 /\ Len(n) > 4 /\ StartsText(n, Prefix51D) THEN From(n, 5) ELSE n
Overridden(av, over, prefix, field) ==
  LET f == Skipped(prefix, field)
      k == FirstIndex(over, LAMBDA i : SameText(av[i + 1].name, f))
  IN IF k = 0 THEN -1 ELSE over[k]
PlaceOf(vals, i) == FirstIndex(vals, LAMBDA v : v.idx = i)
Full(vals, cap) == Len(vals) >= cap
(* one value: a new property takes a place, an old one gets the new value; *)
(* a full array takes nothing *)
Added(vals, cap, i, value) ==
  IF i < 0 \/ Full(vals, cap) THEN vals
  ELSE IF PlaceOf(vals, i) = 0 THEN Append(vals, [idx |-> i, value |-> value])
  ELSE [vals EXCEPT ![PlaceOf(vals, i)].value = value]
(* the value of i could not be allocated *)
Dropped(vals, i) ==
  LET k == PlaceOf(vals, i) n == Len(vals) IN
  IF k = 0 THEN vals ELSE SubSeq([vals EXCEPT ![k] = vals[n]], 1, n - 1)
QueryOrCookie(p) == p.prefix = 8 \/ p.prefix = 16 \/ p.prefix = 24
=============================================================================
