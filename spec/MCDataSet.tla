----------------------------- MODULE MCDataSet -----------------------------
(* The life of the data sets of one manager (DataSet.tla): every history of   *)
(* replacing the data file, starting, reloading from the file or memory,      *)
(* using, releasing and freeing the manager. hist is a shortest history to    *)
(* each state and transition, printed for replay.                             *)
EXTENDS DataSet, Json
CONSTANTS FileContents, MemContents, Slots, Cfgs
C(n) == [key |-> n, head |-> IF n = 5 THEN 1 ELSE n, id |-> n, bad |-> IF n = 3 THEN 1 ELSE 0,
         mask |-> CASE n = 1 -> {0, 1} [] n = 2 -> {1, 2} [] n = 4 -> {0} [] OTHER -> {0, 1}]
Some == {1, 2, 3}
More == {1, 2, 3, 4, 5}
MemSome == {2}
MemMore == {1, 3}
F(temp, reuse, mem, compare) == [temp |-> temp, reuse |-> reuse, mem |-> mem, compare |-> compare]
AllCfgs == {F(0, 0, 0, 0), F(0, 0, 1, 0), F(1, 0, 0, 0), F(1, 1, 0, 0), F(1, 1, 0, 1)}
FewCfgs == {F(0, 0, 0, 0), F(1, 0, 0, 0), F(1, 1, 0, 0)}
VARIABLES cfg, file, ds, active, held, temps, hist
vars == <<cfg, file, ds, active, held, temps>>
(* which number a data set or a temporary file has does not matter *)
Rec(x) == IF x = 0 THEN <<>> ELSE <<ds[x].c.key, ds[x].props, ds[x].temp >= 0, \E t \in temps : t[1] = ds[x].temp>>
TempOf(x) == IF x = 0 THEN -1 ELSE ds[x].temp
Three == <<active, held[0], held[1]>>
View == <<cfg, file, [i \in DOMAIN Three |-> Rec(Three[i])],
          {p \in (1..Len(Three)) \X (1..Len(Three)) : p[1] < p[2] /\ Three[p[1]] = Three[p[2]]},
          {p \in (1..Len(Three)) \X (1..Len(Three)) : p[1] < p[2] /\ TempOf(Three[p[1]]) = TempOf(Three[p[2]])}>>
Note(x) == hist' = Append(hist, x)
Least(S) == CHOOSE n \in 1..9 : n \notin S /\ \A k \in 1..(n - 1) : k \in S
Init == /\ cfg \in Cfgs /\ file = 0 /\ ds = <<>> /\ active = 0 /\ held = [s \in Slots |-> 0] /\ temps = {}
        /\ hist = << <<cfg.temp, cfg.reuse, cfg.mem, cfg.compare>> >>
Write == \E c \in FileContents \ {file} : file' = c /\ Note(<<"w", c>>) /\ UNCHANGED <<cfg, ds, active, held, temps>>
Remove == file # 0 /\ file' = 0 /\ Note(<<"d">>) /\ UNCHANGED <<cfg, ds, active, held, temps>>
(* a data set is made of the content c (of the file: m = 0) with the properties p and takes the place of the active one *)
Becomes(m, c, p(_)) ==
  LET tempUsed == m = 0 /\ cfg.temp = 1
      again == IF m = 0 THEN Reusable(cfg, temps, 0, C(c)) ELSE {}
      mem == m < 0 \/ cfg.mem = 1 IN
  \E t \in IF ~tempUsed THEN {<<-1, 0, c, C(c).head>>}
           ELSE IF again # {} THEN again
           ELSE {<<Least({x[1] : x \in temps} \union {ds[x].temp : x \in DOMAIN ds}), 0, c, C(c).head>>} :
    LET data == C(t[3])
        all == IF tempUsed THEN temps \union {t} ELSE temps
    IN IF Broken(data, mem) \/ p(data) = {}
       THEN /\ UNCHANGED <<ds, active>>
            (* the temporary file of a data set which fails is removed, whoever else has it open *)
            /\ temps' = all \ {t}
       ELSE LET id == Least(DOMAIN ds)
                old == Unneeded(ds, id) IN
            /\ active' = id
            /\ ds' = Drop((id :> [c |-> data, props |-> p(data), temp |-> t[1], refs |-> 0]) @@ ds, old)
            /\ temps' = {x \in all : x[1] \notin Gone(ds, old)}
Load(op, m, c, p(_)) ==
  /\ IF c = 0 THEN UNCHANGED <<ds, active, temps>> ELSE Becomes(m, c, p)
  /\ UNCHANGED <<cfg, file, held>> /\ Note(IF m = 0 THEN <<op>> ELSE <<op, c>>)
Start == active = 0 /\ Load("I", 0, file, LAMBDA d : d.mask)
StartMem == active = 0 /\ \E c \in MemContents : Load("J", -1, c, LAMBDA d : d.mask)
Reload == active # 0 /\ Load("R", 0, file, LAMBDA d : d.mask \cap ds[active].props)
ReloadMem == active # 0 /\ \E c \in MemContents : Load("M", -1, c, LAMBDA d : d.mask \cap ds[active].props)
Get == active # 0 /\ \E s \in Slots : /\ held[s] = 0 /\ \A x \in Slots : x < s => held[x] # 0
         /\ held' = [held EXCEPT ![s] = active] /\ ds' = [ds EXCEPT ![active].refs = @ + 1]
         /\ Note(<<"g", s>>) /\ UNCHANGED <<cfg, file, active, temps>>
Use == \E s \in Slots : held[s] # 0 /\ Note(<<"q", s>>) /\ UNCHANGED vars
Release == \E s \in Slots : held[s] # 0 /\
  LET d == [ds EXCEPT ![held[s]].refs = @ - 1]
      old == Unneeded(d, active) IN
  /\ held' = [held EXCEPT ![s] = 0] /\ ds' = Drop(d, old) /\ temps' = {x \in temps : x[1] \notin Gone(d, old)}
  /\ Note(<<"l", s>>) /\ UNCHANGED <<cfg, file, active>>
Free == /\ active # 0 /\ LET old == Unneeded(ds, 0) IN ds' = Drop(ds, old) /\ temps' = {x \in temps : x[1] \notin Gone(ds, old)}
        /\ active' = 0 /\ Note(<<"X">>) /\ UNCHANGED <<cfg, file, held>>
Next == Write \/ Remove \/ Start \/ StartMem \/ Reload \/ ReloadMem \/ Get \/ Use \/ Release \/ Free
Spec == Init /\ [][Next]_<<vars, hist>>
(* ---- what is active or held is there, and nothing else is *)
Needed == DOMAIN ds = ({active} \union {held[s] : s \in Slots}) \ {0}
Counted == \A x \in DOMAIN ds : ds[x].refs = Cardinality({s \in Slots : held[s] = x})
(* no temporary file without a data set *)
NoStray == \A t \in temps : \E x \in DOMAIN ds : ds[x].temp = t[1]
(* a copy of its own which nobody else removes *)
OwnCopy == (cfg.temp = 1 /\ cfg.reuse = 0) => \A x \in DOMAIN ds : ds[x].temp = -1 \/ \E t \in temps : t[1] = ds[x].temp
(* what is held is what it was; what is active is replaced only by what is sound *)
HeldIsSame == [][\A s \in Slots : held[s] # 0 /\ held'[s] = held[s] => ds'[held[s]] = [ds[held[s]] EXCEPT !.refs = ds'[held[s]].refs]]_vars
ActiveSound == active # 0 => ~Broken(ds[active].c, cfg.mem = 1) /\ ds[active].props # {}
Emit == PrintT("VFSCRIPT " \o ToJson(hist'))
=============================================================================
