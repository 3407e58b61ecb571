------------------------------ MODULE DataSet ------------------------------
(* The life of the data sets of a manager (dataset.c, resource.c): which data *)
(* set is active, who uses which, what each is made of, and the temporary     *)
(* files which stand behind them.                                             *)
(*   a content  [key, head, id, mask, variant, values, bad]                   *)
(*   a temporary file  <<number, master, key, head>>                          *)
(*   a data set  [c (its content), props, temp (number or -1), mem, refs,     *)
(*                live, open (what it holds)]                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* ---- a configuration: [temp, reuse, mem, compare, conc] *)
SameData(cfg, c, t) == IF cfg.compare = 1 THEN t[4] = c.head ELSE t[3] = c.key
(* the temporary files of a master which can be used again *)
Reusable(cfg, temps, m, c) == IF cfg.temp = 1 /\ cfg.reuse = 1 THEN {t \in temps : t[2] = m /\ SameData(cfg, c, t)} ELSE {}
(* data which must load, and data which can't *)
Sound(c) == c.bad \in {0, 6}
Broken(c, mem) == c.bad \in {1, 4, 5} \/ (mem /\ c.bad \in {2, 3})
(* what the first data set and the later ones make available *)
Wanted(c, all, want) == IF all THEN c.mask ELSE c.mask \cap want
Drop(ds, s) == [x \in DOMAIN ds \ s |-> ds[x]]
WithoutTemp(temps, n) == {t \in temps : t[1] # n}
(* a data set is freed when it is not active and not used *)
Unneeded(ds, active) == {s \in DOMAIN ds : s # active /\ ds[s].refs = 0}
Gone(ds, s) == {ds[x].temp : x \in s} \ {-1}
(* what the data sets s hold *)
RECURSIVE LiveOf(_, _), OpenOf(_, _)
LiveOf(ds, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN ds[x].live + LiveOf(ds, s \ {x})
OpenOf(ds, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN ds[x].open + OpenOf(ds, s \ {x})
=============================================================================
