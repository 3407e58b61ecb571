------------------------------ MODULE CacheLRU ------------------------------
(* Sequential semantics of the loading cache (cache.c). A shard holds up to   *)
(* cap entries. An entry which is held by someone is pinned; the others form  *)
(* a list, the most recently released first, from whose end an entry is taken *)
(* when a key is loaded and no entry is unused. Hole is an entry whose load   *)
(* failed.                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Hole == <<"hole">>
AbsMod(k, m) == IF k < 0 THEN (m - (k % m)) % m ELSE k % m
ShardOf(k, conc) == AbsMod(k[1], conc)
CreateOk(cap, conc) == conc # 0 /\ cap \div conc >= conc
ShardCap(cap, conc) == (cap % conc) + (cap \div conc)
NewCache(cap, conc) ==
  [conc |-> conc, cap |-> ShardCap(cap, conc), hits |-> 0, misses |-> 0,
   shards |-> [i \in 0..(conc - 1) |-> [used |-> 0, lru |-> <<>>, held |-> <<>>]]]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x
(* held is a sequence of keys, one for each get not released yet *)
RemoveOne(q, x) == LET i == CHOOSE j \in 1..Len(q) : q[j] = x
                   IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Cached(sh, k) == InSeq(sh.held, k) \/ InSeq(sh.lru, k)
Full(s, sh) == sh.used = s.cap /\ sh.lru = <<>>
(* an entry to load into: an unused one, else the end of the list *)
Taken(s, sh) == IF sh.used < s.cap THEN [sh EXCEPT !.used = @ + 1]
                ELSE [sh EXCEPT !.lru = SubSeq(@, 1, Len(@) - 1)]
(* What a get of key k does: [hit, load, ok, next] for a load which fails or  *)
(* not. Where the entry of a failed load goes is not part of the contract.    *)
Gets(s, k, fail) ==
  LET i == ShardOf(k, s.conc)
      sh == s.shards[i]
      put(x, h, m) == [s EXCEPT !.shards[i] = x, !.hits = @ + h, !.misses = @ + m]
  IN IF Cached(sh, k)
     THEN {[load |-> 0, ok |-> 1, same |-> IF InSeq(sh.held, k) THEN 1 ELSE 0,
            next |-> put([sh EXCEPT !.lru = Without(@, k), !.held = Append(@, k)], 1, 0)]}
     ELSE IF Full(s, sh)
     THEN {[load |-> 0, ok |-> 0, same |-> 0, next |-> put(sh, 0, 1)]}
     ELSE LET t == Taken(s, sh)
          IN IF fail = 0
             THEN {[load |-> 1, ok |-> 1, same |-> 0, next |-> put([t EXCEPT !.held = Append(@, k)], 0, 1)]}
             ELSE {[load |-> 1, ok |-> 0, same |-> 0, next |-> put([t EXCEPT !.lru = q], 0, 1)]
                     : q \in {<<Hole>> \o t.lru, t.lru \o <<Hole>>}}
Released(s, k) ==
  LET i == ShardOf(k, s.conc)
      sh == s.shards[i]
      h == RemoveOne(sh.held, k)
  IN [s EXCEPT !.shards[i] = [sh EXCEPT !.held = h, !.lru = IF InSeq(h, k) THEN @ ELSE <<k>> \o @]]
IsHeld(s, k) == InSeq(s.shards[ShardOf(k, s.conc)].held, k)
(* ---- properties of every state *)
Pinned(s) == \A i \in DOMAIN s.shards : \A k \in 1..Len(s.shards[i].lru) :
               ~InSeq(s.shards[i].held, s.shards[i].lru[k])
NoDuplicates(s) == \A i \in DOMAIN s.shards : LET q == s.shards[i].lru IN
               \A a, b \in 1..Len(q) : a # b /\ q[a] = q[b] => q[a] = Hole
Accounted(s) == \A i \in DOMAIN s.shards : LET sh == s.shards[i] IN
               /\ sh.used <= s.cap
               /\ sh.used = Len(sh.lru) + Cardinality({sh.held[j] : j \in 1..Len(sh.held)})
=============================================================================
