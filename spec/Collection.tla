----------------------------- MODULE Collection -----------------------------
(* What a collection (collection.c) is, whatever its configuration: a mapping *)
(* from keys (an index, or an offset for items of variable width) to bytes.   *)
(* The configuration decides where an item comes from (memory, cache, file),  *)
(* which matters for what can go wrong: reading the file needs a handle of    *)
(* the pool and the bytes to be there, and a cache needs an entry no one      *)
(* holds. The entries of the cache behave as CacheLRU says.                   *)
EXTENDS CacheLRU
SumLen(items, k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Len(items[i]) + S(i - 1) IN S(k)
(* d: [kind, src, n, size, loaded, cap, conc, pool, avail, offs, items] *)
Size(d) == SumLen(d.items, d.n)
EndOf(d, i) == SumLen(d.items, i)
(* number of items loaded into memory at creation *)
InMemory(d) ==
  IF d.src # "file" THEN d.n
  ELSE IF d.loaded = 0 THEN 0
  ELSE IF d.kind = "v" /\ Size(d) < d.loaded THEN d.n
  ELSE IF d.loaded > d.n THEN d.n ELSE d.loaded
Second(d) == IF InMemory(d) = d.n /\ (d.src # "file" \/ d.loaded > 0) THEN "none"
             ELSE IF d.cap > 0 /\ d.conc > 0 THEN "cache" ELSE "file"
MayCreate(d) ==
  /\ EndOf(d, InMemory(d)) <= d.avail
  /\ Second(d) = "cache" => CreateOk(d.cap, d.conc)
New(d) == [d |-> d, mem |-> InMemory(d), second |-> Second(d),
           cache |-> IF Second(d) = "cache" THEN NewCache(d.cap, d.conc) ELSE [conc |-> 0],
           holding |-> 0,            \* handles which others hold
           slots |-> [s \in 0..11 |-> <<>>]]
(* the number of the item of a key, 0 when there is none *)
ItemOf(d, key) == IF key < 0 THEN 0
                  ELSE IF \E i \in 1..d.n : d.offs[i] = key THEN CHOOSE i \in 1..d.n : d.offs[i] = key ELSE 0
(* without items the width of an item is not known *)
RangeErrors(d) == IF d.n = 0 THEN {"index", "offset"} ELSE IF d.kind = "f" THEN {"index"} ELSE {"offset"}
FaultStatus(f) == CASE f = "a" -> "nomem" [] f = "r" -> "read" [] f = "s" -> "seek" [] OTHER -> "none"
CacheKey(key) == <<key, 0>>
(* reading item i (0: out of range) from the file *)
FileRead(s, i, fired, fault) ==
  IF i = 0 THEN RangeErrors(s.d)
  ELSE IF s.holding >= s.d.pool THEN {"nohandle"}
  ELSE IF fired = 1 THEN {FaultStatus(fault)}
  ELSE IF EndOf(s.d, i) > s.d.avail THEN {"read"}
  ELSE {"ok"}
(* outcomes of a get: [ok, sts (allowed statuses), next, pin] ; pin: what the  *)
(* slot holds afterwards                                                      *)
GetOutcomes(s, key, fired, fault) ==
  LET i == ItemOf(s.d, key) IN
  IF i # 0 /\ i <= s.mem
  THEN {[ok |-> 1, sts |-> {"ok"}, next |-> s, cached |-> FALSE, io |-> FALSE]}
  ELSE IF s.second = "none"
  THEN {[ok |-> 0, sts |-> RangeErrors(s.d), next |-> s, cached |-> FALSE, io |-> FALSE]}
  ELSE IF s.second = "file"
  THEN LET r == FileRead(s, i, fired, fault)
       IN {[ok |-> IF r = {"ok"} THEN 1 ELSE 0, sts |-> r, next |-> s, cached |-> FALSE, io |-> TRUE]}
  ELSE LET k == CacheKey(key)
           sh == s.cache.shards[ShardOf(k, s.cache.conc)]
           r == FileRead(s, i, fired, fault)
       IN IF Cached(sh, k) \/ Full(s.cache, sh)
          THEN {[ok |-> o.ok, sts |-> IF o.ok = 1 THEN {"ok"} ELSE {"nohandle"}, next |-> [s EXCEPT !.cache = o.next],
                 cached |-> TRUE, io |-> FALSE] : o \in Gets(s.cache, k, 0)}
          ELSE {[ok |-> o.ok, sts |-> r, next |-> [s EXCEPT !.cache = o.next],
                 cached |-> TRUE, io |-> TRUE] : o \in Gets(s.cache, k, IF r = {"ok"} THEN 0 ELSE 1)}
Pin(s, slot, key, cached) == [s EXCEPT !.slots[slot] = <<key, cached>>]
Unpin(s, slot) ==
  LET h == s.slots[slot] IN
  [s EXCEPT !.slots[slot] = <<>>, !.cache = IF h[2] THEN Released(@, CacheKey(h[1])) ELSE @]
(* a get followed by a release, when the get succeeds *)
Transient(o, key) == IF o.ok = 1 /\ o.cached THEN [o.next EXCEPT !.cache = Released(@, CacheKey(key))] ELSE o.next
Value(d, i) == d.items[i]
IntOf(b) == IF Len(b) = 4 THEN b[1] + 256 * b[2] + 65536 * b[3] ELSE 0
=============================================================================
