---------------------------- MODULE DataSetTrace ----------------------------
EXTENDS TraceBase, DataSet
VARIABLES tr, l, files, known, temps, ds, active, held, live, open
vars == <<tr, l, files, known, temps, ds, active, held, live, open>>
e == Traces[tr][l]
cfg == Traces[tr][1]
SetOf(q) == {q[i] : i \in 1..Len(q)}
None == [key |-> -1]
Content(x) == [key |-> x.key, head |-> x.head, id |-> x.id, mask |-> SetOf(x.mask), variant |-> x.variant, values |-> x.values, bad |-> x.bad]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
(* what every event says of the state after it *)
Seen ==
  /\ e.active = active' /\ e.use = (IF active' = 0 THEN 0 ELSE ds'[active'].refs)
  /\ e.live = live' /\ e.open = open' /\ e.dirs = 0 /\ e.outside = 0
  /\ SetOf(e.temps) = temps' /\ Len(e.temps) = Cardinality(temps')
Op(name) == Take /\ e.e = name
Same == UNCHANGED <<ds, active, held, live, open>>
Init == /\ tr \in 1..NTraces /\ l = 2 /\ files = [m \in 0..1 |-> None] /\ known = {} /\ temps = {}
        /\ ds = <<>> /\ active = 0 /\ held = [s \in 1..6 |-> 0] /\ live = 0 /\ open = 0

Write == /\ Op("write") /\ files' = [files EXCEPT ![e.m] = Content(e)] /\ known' = known \union {Content(e)}
         /\ UNCHANGED temps /\ Same /\ e.freed = <<>> /\ Seen
Remove == /\ Op("remove") /\ files' = [files EXCEPT ![e.m] = None] /\ UNCHANGED <<known, temps>> /\ Same /\ e.freed = <<>> /\ Seen

(* the data sets g are freed, n (a function of at most one) is added and base are *)
(* the temporary files in between *)
Change(d, g, base) ==
  LET gone == Gone(d, g) IN
  /\ SetOf(e.freed) = g /\ Len(e.freed) = Cardinality(g)
  /\ \/ temps' = {t \in base : t[1] \notin gone}
     \/ e.fault = 1 /\ e.fk = "m" /\ temps' = base
  /\ ds' = Drop(d, g)
(* a data set is made from the content c of the master m (-1 memory), and takes *)
(* the place of the active one *)
(* the names and headers which could be read, when each call has an exception of its own *)
Some(p) == IF e.fault = 1 /\ cfg.own = 1 THEN SUBSET p \ {{}} ELSE {p}
Loaded(m, c, props(_)) ==
  \E base \in {temps} \union {temps \union {<<e.temp, m, c.key, c.head>>}} :
    LET tempUsed == m >= 0 /\ cfg.temp = 1
        again == IF m >= 0 THEN Reusable(cfg, temps, m, c) ELSE {}
        mem == m < 0 \/ cfg.mem = 1 IN
    \E data \in {c} \union known :
      /\ IF ~tempUsed THEN e.temp = -1 /\ base = temps /\ data = c
         ELSE \/ \E t \in again : e.temp = t[1] /\ base = temps /\ data.key = t[3]
              \/ /\ again = {} \/ e.fault = 1
                 /\ \A t \in temps : t[1] # e.temp
                 /\ base = temps \union {<<e.temp, m, c.key, c.head>>} /\ data = c
      /\ ~Broken(data, mem)
      /\ props(data) # {}
      /\ e.serial \notin DOMAIN ds
      /\ \E avail \in Some(props(data)) : LET old == Unneeded(ds, e.serial)
             n == [c |-> data, props |-> avail, loose |-> e.fault = 1 /\ cfg.own = 1, temp |-> e.temp, mem |-> mem, refs |-> 0, from |-> m,
                   live |-> e.live - live + LiveOf(ds, old), open |-> IF mem THEN 0 ELSE cfg.conc]
         IN /\ n.live > 0 /\ (e.mem = 1) = mem
            /\ active' = e.serial
            /\ Change((e.serial :> n) @@ ds, old, base)
            /\ live' = e.live
            /\ open' = open + n.open - OpenOf(ds, old)
(* nothing changes. A temporary file which was there already is not needed by *)
(* those which have it open *)
Failed(m, c) ==
  (* the data set which was not to be may have got as far as having a free method *)
  /\ SetOf(e.freed) \cap DOMAIN ds = {} /\ Len(e.freed) <= e.fault
  /\ UNCHANGED <<ds, active, live, open>>
  /\ \/ temps' = temps
     \/ c # None /\ m >= 0 /\ \E t \in Reusable(cfg, temps, m, c) : temps' = temps \ {t}
     \/ e.fault = 1 /\ e.fk = "m" /\ \E t \in SetOf(e.temps) : temps' = temps \union {t}
(* why it may fail *)
Hopeless(m, c, props(_)) ==
  \/ e.fault = 1
  \/ c = None /\ e.st = "notfound"
  \/ c # None /\
     \/ ~Sound(c)
     \/ props(c) = {} /\ e.st = "reqprop"
     \/ \E t \in (IF m >= 0 THEN Reusable(cfg, temps, m, c) ELSE {}) : \E k \in known : k.key = t[3] /\ (~Sound(k) \/ props(k) = {})
Make(name, props(_)) ==
  /\ Op(name) /\ e.skip = 0 /\ UNCHANGED <<files, held>>
  /\ LET c == IF e.m >= 0 THEN files[e.m] ELSE Content(e) IN
     /\ known' = IF e.m >= 0 THEN known ELSE known \union {c}
     /\ IF e.st = "ok" THEN c # None /\ Loaded(e.m, c, props)
        ELSE Hopeless(e.m, c, props) /\ Failed(e.m, c)
  /\ Seen
Skip == /\ l <= Len(Traces[tr]) /\ e.e \in {"init", "reload"} /\ Take /\ e.skip = 1 /\ e.freed = <<>> /\ UNCHANGED <<files, known, temps>> /\ Same /\ Seen
First == Make("init", LAMBDA c : Wanted(c, e.all = 1, SetOf(e.want))) /\ active = 0
Reload == Make("reload", LAMBDA c : Wanted(c, FALSE, ds[active].props)) /\ active # 0
Get ==
  /\ Op("get") /\ active # 0 /\ e.serial = active
  /\ held' = [held EXCEPT ![e.slot] = active] /\ held[e.slot] = 0
  /\ ds' = [ds EXCEPT ![active].refs = @ + 1]
  /\ e.freed = <<>> /\ UNCHANGED <<files, known, temps, active, live, open>> /\ Seen
(* what is held stays as it was when it was made *)
Use ==
  /\ Op("use") /\ held[e.slot] # 0 /\ UNCHANGED <<files, known, temps, active, held, open>> /\ e.freed = <<>>
  (* a cache may keep what it has read until the data set is freed *)
  /\ live' = e.live /\ ds' = [ds EXCEPT ![held[e.slot]].live = @ + e.live - live]
  /\ Seen
  /\ LET d == ds[held[e.slot]] IN
     /\ e.id = d.c.id /\ e.variant = d.c.variant /\ e.values = d.c.values
     /\ SetOf(e.props) = d.props /\ e.other = 0 /\ (e.heads = 1 \/ d.loose)
     /\ e.temp = d.temp /\ (e.mem = 1) = d.mem /\ e.master = d.from
     /\ \/ e.good = d.c.values /\ e.why = "ok"
        \/ (e.fault = 1 \/ ~Sound(d.c)) /\ e.good = -1 /\ e.why # "ok"
Release ==
  /\ Op("release") /\ held[e.slot] # 0 /\ UNCHANGED <<files, known, active>>
  /\ held' = [held EXCEPT ![e.slot] = 0]
  /\ LET d == [ds EXCEPT ![held[e.slot]].refs = @ - 1]
         old == Unneeded(d, active) IN
     /\ Change(d, old, temps)
     /\ live' = live - LiveOf(ds, old)
     /\ open' = open - OpenOf(ds, old)
  /\ Seen
ManagerFree ==
  /\ Op("mfree") /\ active # 0 /\ UNCHANGED <<files, known, held>>
  /\ IF e.done = 1 THEN
       LET old == Unneeded(ds, 0) IN
       /\ active' = 0 /\ Change(ds, old, temps)
       /\ live' = live - LiveOf(ds, old)
       /\ open' = open - OpenOf(ds, old)
     ELSE e.fault = 1 /\ e.fk = "a" /\ e.freed = <<>> /\ UNCHANGED <<ds, active, live, open, temps>>
  /\ Seen
End == /\ Op("end") /\ UNCHANGED <<files, known, temps>> /\ Same /\ e.freed = <<>> /\ active = 0 /\ DOMAIN ds = {} /\ live = 0 /\ open = 0 /\ Seen
Next == Write \/ Remove \/ Skip \/ First \/ Reload \/ Get \/ Use \/ Release \/ ManagerFree \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
(* ---- on every state of an explanation *)
NeverFreedInUse == /\ \A s \in 1..6 : held[s] # 0 => held[s] \in DOMAIN ds
                   /\ active # 0 => active \in DOMAIN ds
                   /\ \A s \in DOMAIN ds : ds[s].refs = Cardinality({x \in 1..6 : held[x] = s})
=============================================================================
