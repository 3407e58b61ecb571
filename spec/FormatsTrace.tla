---------------------------- MODULE FormatsTrace ----------------------------
EXTENDS TraceBase, Formats
VARIABLES tr, l, said
vars == <<tr, l, said>>
e == Traces[tr][l]
Take == l <= Len(Traces[tr]) /\ l' = l + 1 /\ UNCHANGED tr
Keep == UNCHANGED said
Init == tr \in 1..NTraces /\ l = 1 /\ said = <<>>
Address == /\ Take /\ e.e = "address" /\ e.live = 0 /\ e.null = e.fired /\ e.next = 0
           /\ (e.null = 0 => Len(e.list) = 1 /\ IpGives(e.s, e.list[1])) /\ Keep
Addresses == /\ Take /\ e.e = "addresses" /\ e.live = 0
             /\ \E q \in {Without(IpPieces(e.s), e.fired)} :
                Len(e.list) = Len(q) /\ \A i \in 1..Len(q) : IpGives(q[i], e.list[i])
             /\ Keep
CompareIp == Take /\ e.e = "compareip" /\ e.r = IpOrder(e.a, e.b, e.type) /\ Keep
TextLines == /\ Take /\ e.e = "text" /\ e.live = 0 /\ e.open = 0
             /\ LET given == NotEmpty(e.lines) all == Lines(e.s) IN
                /\ Len(given) <= Len(all) /\ given = SubSeq(all, 1, Len(given))
                /\ (e.limit < 0 => given = all)
                /\ (e.limit >= 0 => Len(e.lines) <= e.limit /\ (Len(e.lines) = e.limit \/ given = all))
             /\ Keep
YamlDocs == /\ Take /\ e.e = "yaml" /\ e.live = 0 /\ e.open = 0
            /\ IF e.fired = 1 THEN e.st # "ok" /\ e.docs = <<>>
               ELSE /\ e.st = "ok"
                    /\ YamlOk(e.s) => e.docs = Docs(Lines(e.s), <<>>, <<>>, e.limit, e.size, e.kl, e.vl)
            /\ Keep
(* whatever the bytes of the file are, the buffer makes no difference *)
YamlAny == /\ Take /\ e.e = "yamlany" /\ e.live = 0 /\ e.open = 0 /\ e.st0 = "ok" /\ e.st1 = "ok" /\ e.docs = e.again
           /\ \A i \in 1..Len(e.docs) : /\ Len(e.docs[i]) \in 1..e.size
                                        /\ \A j \in 1..Len(e.docs[i]) : Len(e.docs[i][j].k) < e.kl /\ Len(e.docs[i][j].v) < e.vl
           /\ (e.limit < 0 \/ Len(e.docs) <= e.limit \/ Len(e.docs) = 1)
           /\ (YamlOk(e.s) => e.docs = Docs(Lines(e.s), <<>>, <<>>, e.limit, e.size, e.kl, e.vl))
           /\ Keep
Strings == /\ Take /\ e.e = "strings" /\ e.cmp = TextOrder(e.a, e.b) /\ e.sub = SubAt(e.a, e.b)
           /\ e.cmplen = TextOrder(SubSeq(e.a, 1, e.len), SubSeq(e.b, 1, e.len)) /\ Keep
Floats == /\ Take /\ e.e = "float" /\ ToNative(e.f, e.native) /\ FromNative(e.f, e.from)
          /\ (e.eq = 0) = (e.same = 1) /\ Keep
(* every status has its own text, with the name of the file in it when it has *)
(* a place for it *)
Message == /\ Take /\ e.e = "message" /\ e.live = 0
           /\ IF e.fired = 1 THEN UNCHANGED said
              ELSE /\ e.none # <<>> /\ e.full # <<>>
                   /\ (e.noname = 0 => Inserted(e.none, e.name, e.with))
                   /\ Within(e.full, e.file) /\ Within(e.full, e.func) /\ Within(e.full, e.line)
                   /\ e.null # <<>> /\ Within(e.full, e.null)
                   /\ \A i \in 1..Len(said) : /\ (said[i].m = e.none) = (said[i].st = e.status)
                                               /\ (~Known(e.status) /\ ~Known(said[i].st)) => SameFor(said[i].m, said[i].code, e.none, e.code)
                   /\ (Known(e.status) \/ Within(e.none, e.code))
                   /\ said' = Append(said, [st |-> e.status, code |-> e.code, m |-> e.none])
(* checking an exception which is set says why and ends the process with its   *)
(* status; one which isn't changes nothing                                      *)
Exits == /\ Take /\ e.e = "exit" /\ Keep
         /\ IF e.status = NotSet THEN e.said = <<>> /\ e.code = 77
            ELSE /\ e.code = e.status % 256
                 /\ (e.nomem = 0 => e.said = e.full)
End == Take /\ e.e = "end" /\ e.live = 0 /\ e.open = 0 /\ Keep
Next == Address \/ Addresses \/ CompareIp \/ TextLines \/ YamlDocs \/ YamlAny \/ Strings \/ Floats \/ Message \/ Exits \/ End
Spec == Init /\ [][Next]_vars
Constraint == NotePos(tr, l)
=============================================================================
