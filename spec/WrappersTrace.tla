--------------------------- MODULE WrappersTrace ---------------------------
EXTENDS TraceBase, Wrappers
VARIABLES tr, l, av, cont, msgs, ev, mask, req, conf
vars == <<tr, l, av, cont, msgs, ev, mask, req, conf>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
NoReq == [how |-> "none", names |-> <<>>, str |-> <<>>, on |-> 0, existing |-> <<>>]
Init == /\ tr \in 1..NTraces /\ l = 1 /\ av = <<>> /\ cont = <<>> /\ msgs = 0 /\ ev = <<>> /\ mask = -1 /\ req = NoReq
        /\ conf = [upper |-> 0, temp |-> 0, reuse |-> 0, dirs |-> <<>>]
(* ---- results *)
Available == /\ Take /\ e.e = "available" /\ e.refs = 2
             /\ av' = SortSeq(e.names, LAMBDA a, b : TextOrder(a, b) < 0) /\ cont' = <<>>
             /\ UNCHANGED <<msgs, ev, mask, req, conf>>
Has == /\ Take /\ e.e = "has"
       /\ cont' = SelectSeq(cont, LAMBDA x : x.idx # e.idx) \o <<[idx |-> e.idx, has |-> e.has, reason |-> e.reason, values |-> e.values]>>
       /\ UNCHANGED <<av, msgs, ev, mask, req, conf>>
Messages == Take /\ e.e = "messages" /\ msgs' = e.on /\ UNCHANGED <<av, cont, ev, mask, req, conf>>
NameIndex(n) == FirstIndex(av, LAMBDA a : SameText(a, n)) - 1
At(i) == FirstIndex(cont, LAMBDA x : x.idx = i)
Want(i) == IF At(i) = 0 THEN Absent(Invalid, msgs)
           ELSE IF cont[At(i)].has = 0 THEN Absent(cont[At(i)].reason, msgs)
           ELSE Typed(e.type, cont[At(i)].values)
Get == /\ Take /\ e.e = "get"
       /\ e.how # "i" => e.idx = NameIndex(e.name)
       /\ LET w == Want(e.idx) IN
          /\ e.has = w.has /\ e.same = 1 /\ e.bad = 0
          /\ IF w.has = 1 THEN e.exc = "none" /\ e.value = w.value
             ELSE e.reason = w.reason /\ e.msg = w.msg /\ e.exc = Thrown(w.reason) /\ e.what \in Whats(w.reason, w.msg)
       /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
Names == /\ Take /\ e.e = "names" /\ e.count = Len(av) /\ e.list = av /\ e.by = <<<<>>>> \o av \o <<<<>>>>
         /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
Contains == /\ Take /\ e.e = "contains" /\ e.r = (IF NameIndex(e.name) >= 0 THEN 1 ELSE 0)
            /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- evidence *)
NewEvidence == Take /\ e.e = "evidence" /\ ev' = <<>> /\ mask' = e.mask /\ UNCHANGED <<av, cont, msgs, req, conf>>
NoEvidence == Take /\ e.e = "noevidence" /\ ev' = <<>> /\ UNCHANGED <<av, cont, msgs, mask, req, conf>>
Set == Take /\ e.e = "set" /\ ev' = WithPair(ev, e.key, e.value) /\ UNCHANGED <<av, cont, msgs, mask, req, conf>>
Erase == /\ Take /\ e.e = "erase" /\ e.found = (IF KeyPlace(ev, e.key) # 0 THEN 1 ELSE 0)
         /\ ev' = SelectSeq(ev, LAMBDA p : p.key # e.key) /\ UNCHANGED <<av, cont, msgs, mask, req, conf>>
EraseRange == /\ Take /\ e.e = "eraserange"
              /\ ev' = SelectSeq(ev, LAMBDA p : OrderFrom(p.key, e.from, 1) < 0 \/ OrderFrom(p.key, e.to, 1) >= 0)
              /\ UNCHANGED <<av, cont, msgs, mask, req, conf>>
Clear == Take /\ e.e = "clear" /\ e.n = 0 /\ ev' = <<>> /\ UNCHANGED <<av, cont, msgs, mask, req, conf>>
Given == /\ Take /\ e.e = "given" /\ e.ok = 1
         /\ SubSeq(e.items, 1, Len(e.items) - 1) = GivenFrom(ev, mask, e.prefixes)
         /\ e.n = Len(e.items) - 1 /\ e.count = Len(Relevant(ev, mask))
         /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* a copy is what the original was *)
Same == Take /\ e.e = "same" /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- required properties *)
NewRequired == Take /\ e.e = "required" /\ req' = [how |-> e.how, names |-> e.names, str |-> e.str, on |-> 0, existing |-> <<>>] /\ UNCHANGED <<av, cont, msgs, ev, mask, conf>>
(* the properties of the data set which is replaced, which come first *)
Existing == Take /\ e.e = "existing" /\ req' = [req EXCEPT !.on = 1, !.existing = e.names] /\ UNCHANGED <<av, cont, msgs, ev, mask, conf>>
NoRequired == Take /\ e.e = "norequired" /\ req' = NoReq /\ UNCHANGED <<av, cont, msgs, ev, mask, conf>>
RequiredAre == /\ Take /\ e.e = "requiredare"
               /\ LET q == NamesOf(req) IN
                  /\ e.list = q /\ e.again = q /\ e.count = Len(q) /\ e.count2 = Len(q)
                  /\ \A i \in 1..Len(e.ask) : e.in[i] = (IF \E j \in 1..Len(q) : SameText(q[j], e.ask[i]) THEN 1 ELSE 0)
               /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
ModeOf == IF req.on = 1 THEN "existing" ELSE IF req.how = "list" THEN "array" ELSE IF req.how = "string" THEN "string" ELSE "all"
RequiredOf == /\ Take /\ e.e = "requiredof"
              /\ IF NoneFound(e.names, ModeOf, req.str) THEN e.got = <<>>
                 ELSE /\ e.ok = 1
                      /\ LET s == Required(e.names, ModeOf, IF req.on = 1 THEN req.existing ELSE req.names, req.str) IN
                         /\ Len(e.got) = Cardinality(s)
                         /\ {e.got[i] : i \in 1..Len(e.got)} = {e.names[i + 1] : i \in s}
              /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- keys: each is evidence of its prefix, and those of the headers are the *)
(* headers *)
Keys == /\ Take /\ e.e = "keys"
        /\ e.keys = KeysOf(e.headers, e.over, e.upper, e.prefix)
        /\ LET plain == SelectSeq(e.headers, LAMBDA h : ~IsPseudo(h)) IN
           \A i \in 1..Len(e.keys) :
             /\ e.maps[i].prefix = PrefixOf(e.keys[i]) /\ PrefixOf(e.keys[i]) # 0
             /\ i <= 2 * Len(plain) => e.headers[e.maps[i].idx + 1] = plain[(i + 1) \div 2]
        /\ e.safe = 1
        /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
Download == <<104,116,116,112,115,58,47,47,100,105,115,116,114,105,98,117,116,111,114,46,53,49,100,101,103,114,101,101,115,46,99,111,109,47,97,112,105,47,118,50,47,100,111,119,110,108,111,97,100,63,76,105,99,101,110,99,101,75,101,121,115,61>>
OfProduct == <<38,84,121,112,101,61,84,121,112,101,38,80,114,111,100,117,99,116,61,80,114,111,100>>
Url == /\ Take /\ e.e = "url"
       /\ e.r = IF e.set # <<>> THEN e.set ELSE IF e.licence # <<>> THEN Download \o e.licence \o OfProduct ELSE <<>>
       /\ e.auto = (IF e.set = <<>> /\ e.licence = <<>> THEN 0 ELSE 1)
       /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- addresses: as many bytes as the type has and as were asked for *)
LengthOf(type) == IF type = 0 THEN 4 ELSE 16
Copied(bytes, size, room) == [i \in 1..room |-> IF i <= Min2(size, Len(bytes)) THEN bytes[i] ELSE 238]
Zeros == [i \in 1..16 |-> 0]
Sizes == <<0, 3, 4, 5, 16, 20>>
Address == /\ Take /\ e.e = "address"
           /\ e.ok = (IF e.ctype = -1 THEN 0 ELSE 1)
           /\ e.ok = 1 => /\ e.type = e.ctype
                          /\ LET b == IF e.type \in {0, 1} THEN SubSeq(e.c, 1, LengthOf(e.type)) ELSE Zeros
                             IN \A i \in 1..6 : e.copies[i] = Copied(b, Sizes[i], 20)
           /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
AddressOf == /\ Take /\ e.e = "addressof" /\ e.t = e.type
             /\ LET b == IF e.type \in {0, 1} THEN SubSeq(e.bytes, 1, LengthOf(e.type)) ELSE Zeros
                IN e.copy = Copied(b, e.size, e.size + 1)
             /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- exceptions *)
Status == Take /\ e.e = "status" /\ e.r = e.code /\ e.what = e.message /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
Fatal == /\ Take /\ e.e = "fatal"
         /\ IF e.okay = 1 THEN e.r = -1 /\ e.what = <<>> ELSE e.r = e.code /\ e.what = e.message
         /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- configuration *)
CollectionSet == /\ Take /\ e.e = "collection" /\ e.in = <<e.cap, e.conc, e.load>> /\ e.out = e.in /\ e.same = 1
                 /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
SetConfig == /\ Take /\ e.e = "setconfig" /\ conf' = [conf EXCEPT !.upper = e.upper, !.temp = e.temp, !.reuse = e.reuse]
             /\ UNCHANGED <<av, cont, msgs, ev, mask, req>>
SetDirs == Take /\ e.e = "setdirs" /\ conf' = [conf EXCEPT !.dirs = e.dirs] /\ UNCHANGED <<av, cont, msgs, ev, mask, req>>
Config == /\ Take /\ e.e = "config" /\ e.same = 1
          /\ e.upper = conf.upper /\ e.temp = conf.temp /\ e.reuse = conf.reuse
          /\ e.n = Len(conf.dirs) /\ e.dirs = conf.dirs /\ e.kept = conf.dirs
          /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- strings, the same by each way, and nothing kept of those which failed *)
Text3 == /\ Take /\ e.e = "string"
         /\ IF e.in = 1 THEN e.status = 0 /\ e.metas = 0 /\ e.builders = 0 /\ e.engines = 0 /\ e.meta = e.want /\ e.builder = e.want /\ e.engine = e.want
            ELSE e.status # 0 /\ e.metas = e.status /\ e.builders = e.status /\ e.engines = e.status
         /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- a value which is set is there, whatever it is and was not there for *)
SetValueOf == /\ Take /\ e.e = "valueof" /\ e.same = 1 /\ e.has = (IF e.sets > 0 THEN 1 ELSE 0)
              /\ IF e.sets > 0
                 THEN /\ e.exc = "none"
                      /\ e.value = CASE e.type = "S" -> e.s [] e.type = "I" -> e.n [] e.type = "B" -> e.n % 2 [] OTHER -> [i \in 1..(e.n % 4) |-> e.s]
                 ELSE \E r \in {IF e.reasons > 0 THEN e.of % 8 ELSE Unknown} : \E m \in {IF e.reasons > 0 THEN (e.of \div 8) % 2 ELSE 0} :
                      e.reason = r /\ e.msg = m /\ e.exc = Thrown(r) /\ e.what \in Whats(r, m)
              /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
(* ---- meta data *)
Bit(n, b) == (n \div b) % 2
Value == /\ Take /\ e.e = "value"
         /\ LET a == e.keys[1] b == e.keys[2] c == e.keys[3] d == e.keys[4] o == KeyOrder(a, b, c, d) n == e.n IN
            /\ e.lt = (IF o > 0 THEN 1 ELSE 0) /\ e.gt = (IF o < 0 THEN 1 ELSE 0) /\ e.eq = (IF o = 0 THEN 1 ELSE 0)
            /\ e.self = 0 /\ e.same = e.eq /\ e.differ = 1 - e.eq /\ e.cp = 1
            /\ e.copy = <<a, b, b, c, d>>
            /\ e.prop = <<a, b, c, d, d \o a, a \o b>> /\ e.files = <<b, c>>
            /\ e.flags = <<Bit(n, 1), Bit(n, 2), Bit(n, 4), Bit(n, 8), Bit(n, 16), Bit(n, 32)>>
            /\ e.order = n % 256 /\ e.comp = (n \div 3) % 256 /\ e.evn = n % 9 /\ e.ev = [i \in 1..(n % 9) |-> n + i - 1]
            /\ e.component = <<n % 256, n % 256, 3 * n>> /\ e.profile = <<n, (n \div 5) % 256>> /\ e.cname = a
            /\ e.date = <<n % 3000, n % 13, n % 32>>
         /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
End == /\ Take /\ e.e = "end" /\ e.live = 0 /\ e.refs = 1 /\ e.dirs = 1 /\ UNCHANGED <<av, cont, msgs, ev, mask, req, conf>>
Next == \/ Available \/ Has \/ Messages \/ Get \/ Names \/ Contains \/ NewEvidence \/ NoEvidence \/ Set \/ Erase \/ EraseRange \/ Clear \/ Given
        \/ Same \/ NewRequired \/ Existing \/ NoRequired \/ RequiredAre \/ RequiredOf \/ Keys \/ Url \/ Address \/ AddressOf \/ Status \/ Fatal
        \/ CollectionSet \/ SetConfig \/ SetDirs \/ Config \/ Text3 \/ SetValueOf \/ Value \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
