----------------------------- MODULE Evidence -----------------------------
(* Headers of a data set (headers.c), evidence (evidence.c) and the pseudo    *)
(* headers made of them (pseudoheader.c).                                     *)
EXTENDS Text
Sep == 31
(* ---- headers *)
Segments(name) == Pieces(name, {Sep})
IsPseudo(name) == \E i \in 1..Len(name) : name[i] = Sep
Known(hs, name) == \E i \in 1..Len(hs) : SameText(hs[i].name, name)
RECURSIVE FromDataSet(_, _, _)
FromDataSet(names, i, hs) ==
  IF i > Len(names) THEN hs
  ELSE LET n == names[i].name IN
       FromDataSet(names, i + 1, IF Segments(n) = <<>> \/ Known(hs, n) THEN hs
                                 ELSE Append(hs, [name |-> n, data |-> 1, id |-> names[i].id]))
RECURSIVE WithSegments(_, _)
WithSegments(hs, segs) ==
  IF segs = <<>> THEN hs
  ELSE WithSegments(IF Known(hs, segs[1]) THEN hs ELSE Append(hs, [name |-> segs[1], data |-> 0, id |-> 0]), Tail(segs))
HeadersOf(names) ==
  LET d == FromDataSet(names, 1, <<>>)
  IN WithSegments(d, FlatOf([i \in 1..Len(d) |-> Segments(d[i].name)]))
PseudoCount(hs) == Cardinality({i \in 1..Len(hs) : Len(Segments(hs[i].name)) > 1})
HttpPrefix == <<104, 116, 116, 112, 95>>   \* http_
Stripped(upper, key) == IF upper = 1 /\ Len(key) > 5 /\ StartsText(key, HttpPrefix) THEN From(key, 6) ELSE key
HeaderIndex(hs, upper, key) == FirstIndex(hs, LAMBDA h : SameText(h.name, Stripped(upper, key))) - 1
HeaderOfId(hs, id) == FirstIndex(hs, LAMBDA h : h.id = id) - 1
(* ---- evidence *)
HeaderBit == 1  ServerBit == 4  QueryBit == 8  CookieBit == 16
PrefixNames == << <<115, 101, 114, 118, 101, 114, 46>>, <<104, 101, 97, 100, 101, 114, 46>>,
                  <<113, 117, 101, 114, 121, 46>>, <<99, 111, 111, 107, 105, 101, 46>> >>
PrefixBits == <<ServerBit, HeaderBit, QueryBit, CookieBit>>
PrefixOf(key) ==
  LET i == FirstIndex(PrefixNames, LAMBDA p : Starts(key, p) /\ Len(key) > Len(p))
  IN IF i = 0 THEN 0 ELSE PrefixBits[i]
NameOfPrefix(bit) ==
  LET i == FirstIndex(PrefixBits, LAMBDA b : b = bit) IN IF i = 0 THEN <<>> ELSE PrefixNames[i]
Pow2(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] OTHER -> 128
HasBit(mask, bit) == (mask \div bit) % 2 = 1
\* All the bits of a prefix are in the mask.
HasBits(mask, bits) == \A i \in 0..7 : (bits \div 2 ^ i) % 2 = 1 => (mask \div 2 ^ i) % 2 = 1
(* what an iteration visits: the evidence, then the pseudo evidence *)
Matching(ev, pseudo, mask) ==
  SelectSeq(ev, LAMBDA p : HasBits(mask, p.prefix)) \o SelectSeq(pseudo, LAMBDA p : HasBits(mask, p.prefix))
Visited(ev, pseudo, mask, stop) ==
  LET q == Matching(ev, pseudo, mask) IN IF stop > 0 /\ stop < Len(q) THEN SubSeq(q, 1, stop) ELSE q
(* ---- pseudo headers *)
ValueOf(ev, name, prefix) == FirstIndex(ev, LAMBDA p : p.prefix = prefix /\ SameText(p.field, name))
Complete(ev, segs, prefix) == \A i \in 1..Len(segs) : ValueOf(ev, segs[i], prefix) # 0
\* The values of the segments joined, empty when one of them is missing.
FullValue(ev, segs, prefix) ==
  LET at == [i \in 1..Len(segs) |-> ValueOf(ev, segs[i], prefix)]
      found == SelectSeq(at, LAMBDA x : x # 0)
  IN IF Len(found) < Len(segs) THEN <<>> ELSE JoinWith([i \in 1..Len(segs) |-> ev[found[i]].value], Sep)
Supplied(ev, name, order) == \E i \in 1..Len(order) : ValueOf(ev, name, order[i]) # 0
Cut(v, size) == IF Len(v) >= size THEN SubSeq(v, 1, size - 1) ELSE v
PseudoFor(ev, name, order, size) ==
  LET segs == Segments(name)
      of(b) == LET v == FullValue(ev, segs, b) IN IF v = <<>> THEN <<>> ELSE <<[field |-> name, prefix |-> b, value |-> Cut(v, size)]>>
      all == SelectSeq([i \in 1..Len(order) |-> of(order[i])], LAMBDA x : x # <<>>)
  IN IF all = <<>> THEN <<>> ELSE all[1]
RECURSIVE PseudoFrom(_, _, _, _, _, _)
PseudoFrom(ev, hs, order, size, cap, acc) ==
  IF hs = <<>> \/ Len(acc) >= cap THEN acc
  ELSE PseudoFrom(ev, Tail(hs), order, size, cap,
                  IF IsPseudo(hs[1].name) /\ ~Supplied(ev, hs[1].name, order)
                  THEN acc \o PseudoFor(ev, hs[1].name, order, size) ELSE acc)
PseudoEvidence(ev, hs, order, size, cap) == PseudoFrom(ev, hs, order, size, cap, <<>>)
=============================================================================
