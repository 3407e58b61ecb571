---------------------------- MODULE HeaderTrace ----------------------------
EXTENDS TraceBase, Header
VARIABLES tr, l, c, r
vars == <<tr, l, c, r>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..NTraces /\ l = 1 /\ c = <<>> /\ r = 0
Create ==
  /\ Take /\ e.e = "create" /\ c' = e /\ UNCHANGED r
  /\ IF ~Readable(e.b, e.at)
     THEN /\ e.ok = 0
          /\ e.src = "mem" => e.before = e.at /\ e.pos = e.at
     ELSE IF Fits(e)
     THEN \* the items which are loaded have to be well formed
          /\ ((e.width = "f" /\ (Fixed(e) \/ Claimed(e) = 0)) \/ e.loaded = 0 \/ e.src # "file") => e.ok = 1 /\ (e.src # "only" => e.pos = Base(e) + Claimed(e))
          /\ (e.ok = 1 /\ e.width = "f") => e.count = <<0, Count(e)>>
     (* too long. A file is only read when its items are got *)
     ELSE /\ e.src # "file" => e.ok = 0
          /\ (e.ok = 0 /\ e.src = "mem") => e.pos \in {e.at, Base(e)}
Advance ==
  /\ Take /\ e.e = "advance" /\ UNCHANGED c
  /\ IF e.n <= Len(c.b) - r THEN e.ok = 1 /\ r' = r + e.n ELSE e.ok = 0 /\ UNCHANGED r
  /\ e.pos = r'
(* an element within the claimed length and the bytes is found; what is found  *)
(* is the bytes in its place                                                   *)

Get ==
  /\ Take /\ e.e = "get" /\ UNCHANGED <<c, r>>
  /\ e.ok = 0 => e.st # "ok"
  /\ (c.width # "f" /\ e.ok = 1 /\ e.own = 1) => e.need = Len(e.v)
  /\ IF ~Readable(c.b, c.at) THEN e.ok = 0
     ELSE IF c.width = "f"
     THEN LET k == Key(e.key) IN
          IF Claimed(c) = -1
          THEN (* only what is there *)
               LET n == Len(e.v) IN
               e.ok = 1 => k >= 0 /\ n = c.es /\ There(c, k * n, n) /\ e.v = Slice(c, k * n, n)
          ELSE LET n == Width(c) o == k * n IN
               IF Fixed(c)
               THEN IF k >= 0 /\ k < Count(c) /\ There(c, o, n)
                    THEN e.ok = 1 /\ (e.own = 1 => Len(e.v) = n) /\ e.v = Slice(c, o, Len(e.v))
                    ELSE e.ok = 0
               ELSE e.ok = 1 => e.own = 0 /\ k >= 0 /\ k < Claimed(c)
     ELSE LET k == Key(e.key) IN
          /\ e.ok = 1 => k >= 0 /\ (Claimed(c) # -1 => k < Claimed(c)) /\ There(c, k, Len(e.v)) /\ e.v = Slice(c, k, Len(e.v))
          /\ (c.src # "file" /\ Claimed(c) # -1 /\ k >= 0 /\ k < Claimed(c)) => e.ok = 1
End == Take /\ e.e = "end" /\ e.live = 0 /\ e.open = 0 /\ UNCHANGED <<c, r>>
Next == Create \/ Advance \/ Get \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
