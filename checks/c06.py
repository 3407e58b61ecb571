import vf

# pool,ks,kv,cap,conc:programs (see harness/readers_sched.c)
QUICK = ["2,0,0,2,2:0r|1r", "1,0,0,2,2:0r|1r", "2,0,0,2,2:ar|br", "1,0,0,2,2:ar|0r", "2,1,1,4,2:0ur|0ur", "2,1,1,4,2:01ur|10ur", "1,1,1,4,2:0r|1r", "2,1,1,5,2:02r|4r2",
         "2,2,2,2,2:04r|15r", "2,1,1,4,2:abur|baur", "3,0,0,2,2:0r|ar|5r", "2,3,3,4,2:05r|41r", "2,0,0,2,2:9|0ur", "2,1,1,4,2:90r|0ur9", "2,1,0,9,3:0r|ar|ar",
         "2,0,0,2,2:ar|fr", "2,0,0,2,2:gr|hr", "2,0,0,2,2:jr|kr", "2,1,1,4,2:ebr|ebR", "2,1,1,4,2:hgr|ghr", "2,1,1,4,2:klr|lkr", "2,2,2,2,2:igr|jlr", "3,3,3,4,2:hr|kr|fr"]
DEEP = QUICK + ["3,1,1,9,3:0r|0r|0r", "2,1,1,4,2:0123rrrr|3210RRRR", "2,1,1,9,3:0r|1r|2r", "3,0,1,9,3:a0rr|0arr|b1rr", "1,1,1,4,2:012R|210R", "2,3,3,4,2:0a5frrrr|f5a0rrrr", "3,0,0,2,2:gr|hr|ir", "3,0,0,2,2:jlr|kr|lr", "3,1,1,9,3:hgrr|ghrr|jkrr", "2,3,3,4,2:ghfirrrr|ihebrrrr"]


def mutate(t):
    """one more of the handles, or a read which fails for no reason"""
    for e in t:
        if e["e"] == "end":
            e["handles"] -= 1
            return t
    return None


def check(c):
    c.rule = ("every schedule up to a preemption bound, and random ones, of threads which get, use and release values and strings of a data set in a "
              "file, through a pool of file handles and caches; distinct = API histories which differ, each checked against ReadersTrace.tla")
    vf.models(c, "MCReadFile", [("MCReadFileEarly", "Invariant OneEach is violated"), ("MCReadFileForget", "Invariant AllBack is violated"),
                               ("MCReadFileNoLock", "Invariant OneEntry is violated")])
    vf.model_check(c, "MCReadFile", "MCReadFilePlain.cfg")
    b = vf.prog("readers", "sched", ["readers_sched.c", "sched/sched.c"])
    res = vf.explore(c, b, QUICK if c.quick else DEEP, 3 if c.quick else 4, 40000 if c.quick else 400000, 3000 if c.quick else 40000)
    traces = [t for _, t in res]
    bad = vf.validate(c, "ReadersTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by ReadersTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    for _, t in res[:1] + res[-1:]:
        c.sample(t)
    c.extra["histories_without_a_handle_for_a_read"] = sum(1 for t in traces if any(e.get("why") == "handles" for e in t))
    if not bad:
        vf.binding_selftest(c, "ReadersTrace", traces, mutate)
