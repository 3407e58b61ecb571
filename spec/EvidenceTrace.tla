--------------------------- MODULE EvidenceTrace ---------------------------
EXTENDS TraceBase, Evidence
VARIABLES tr, l, hs, upper, ev, cap, pseudo, pcap
vars == <<tr, l, hs, upper, ev, cap, pseudo, pcap>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ hs = <<>> /\ upper = 0 /\ ev = <<>> /\ cap = -1 /\ pseudo = <<>> /\ pcap = -1
Seg == [i \in 1..Len(hs') |-> IF hs'[i].data = 1 THEN Segments(hs'[i].name) ELSE <<hs'[i].name>>]
HeadersMade ==
  /\ Take /\ e.e = "headers"
  /\ e.ok = IF e.fired = 1 THEN 0 ELSE 1
  /\ e.out = 0                                  \* names which were not released
  /\ IF e.ok = 1
     THEN /\ hs' = HeadersOf(e.names)
          /\ Len(e.list) = Len(hs')
          /\ \A i \in 1..Len(hs') : /\ e.list[i].name = hs'[i].name /\ e.list[i].data = hs'[i].data
                                    /\ e.list[i].id = hs'[i].id /\ e.list[i].segs = Seg[i] /\ e.list[i].len = Len(hs'[i].name)
          /\ e.pseudo = PseudoCount(hs')
     ELSE hs' = <<>>
  /\ upper' = e.upper /\ pseudo' = <<>> /\ UNCHANGED <<ev, cap, pcap>>
Index == Take /\ e.e = "index" /\ e.r = HeaderIndex(hs, upper, e.key) /\ e.http = (IF e.r >= 0 THEN 1 ELSE 0)
         /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
ById == Take /\ e.e = "id" /\ e.r = HeaderOfId(hs, e.id) /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
Pseudo == Take /\ e.e = "ispseudo" /\ e.r = (IF IsPseudo(e.name) THEN 1 ELSE 0) /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
New == Take /\ e.e = "evidence" /\ e.ok = (IF e.fired = 1 THEN 0 ELSE 1)
       /\ cap' = (IF e.ok = 1 THEN e.cap ELSE -1) /\ ev' = <<>> /\ pseudo' = <<>> /\ pcap' = e.pcap /\ UNCHANGED <<hs, upper>>
Add == /\ Take /\ e.e = "add"
       /\ e.ok = IF Len(ev) < cap THEN 1 ELSE 0
       /\ ev' = IF e.ok = 1 THEN Append(ev, [prefix |-> e.prefix, field |-> e.field, value |-> e.value]) ELSE ev
       /\ e.count = Len(ev') /\ UNCHANGED <<hs, upper, cap, pseudo, pcap>>
\* the array is emptied and used for another set of evidence
Again == Take /\ e.e = "again" /\ ev' = <<>> /\ UNCHANGED <<hs, upper, cap, pseudo, pcap>>
Strip(q) == [i \in 1..Len(q) |-> [prefix |-> q[i].prefix, field |-> q[i].field, value |-> q[i].value]]
Iterate == /\ Take /\ e.e = "iterate"
           /\ e.seen = Strip(Visited(ev, pseudo, e.mask, e.stop)) /\ e.count = Len(e.seen) /\ e.parsed = e.count
           /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
Map == Take /\ e.e = "map" /\ e.r = PrefixOf(e.key) /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
Name == Take /\ e.e = "name" /\ e.r = NameOfPrefix(e.bit) /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
AddPseudo == /\ Take /\ e.e = "addpseudo" /\ e.st = "ok"
             /\ pseudo' = PseudoEvidence(ev, hs, e.order, e.size, pcap)
             /\ e.items = Strip(pseudo')
             /\ UNCHANGED <<hs, upper, ev, cap, pcap>>
NoPseudo == Take /\ e.e = "addpseudonull" /\ e.st = "nullptr" /\ UNCHANGED <<hs, upper, ev, cap, pseudo, pcap>>
Remove == Take /\ e.e = "removepseudo" /\ e.count = 0 /\ e.dirty = 0 /\ pseudo' = <<>> /\ UNCHANGED <<hs, upper, ev, cap, pcap>>
End == Take /\ e.e = "end" /\ e.live = 0 /\ hs' = <<>> /\ ev' = <<>> /\ pseudo' = <<>> /\ UNCHANGED <<upper, cap, pcap>>
Next == HeadersMade \/ Index \/ ById \/ Pseudo \/ New \/ Add \/ Again \/ Iterate \/ Map \/ Name \/ AddPseudo \/ NoPseudo \/ Remove \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
