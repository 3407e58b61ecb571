import vf

QUICK = ["2,1:0ur|0ur", "2,1:0ur|1ur|2ur", "1,1:0ur|1ur", "2,1:0u1urr|1u0urr", "2,1:01rr|20rr", "2,1:0ur0ur|1ur2ur", "4,2:0ur1ur|1ur0ur",
         "1,1:0ur0ur|0ur", "2,1:9|0ur9", "1,1:90ur|91ur", "4,2:8u1rr|1u8rr", "3,1:0u1u2uRRR|3ur", "2,1:01u|0ur2r", "4,2:13rr|31rr",
         "2,1:0r1r2r|0ur", "2,1:00urr|0ur", "4,2:0r1r2r|0r3r", "3,1:012RrR|3u0rr"]
DEEP = QUICK + ["2,1:0ur|0ur|1ur", "1,1:0ur|0ur|0ur", "4,2:0ur|1ur|2ur", "2,1:01rr|12rr|20rr", "3,1:0r1r2r3r|3r2r1r0r", "2,1:9r0r|9r0r|0ur",
                "9,3:036RRR|0369r", "4,2:1ur3ur5ur|3ur1ur", "2,1:0ur1ur2ur0ur|2ur1ur0ur"]


def mutate(t):
    """a load into an entry which is held"""
    for i, e in enumerate(t):
        if e["e"] == "ret" and e.get("op") == "get" and e["n"]:
            for j in range(i + 1, len(t)):
                if t[j]["e"] == "call" and t[j]["op"] == "rel" and t[j]["n"] == e["n"]:
                    break
                if t[j]["e"] == "load" and t[j]["n"] != e["n"]:
                    t[j]["n"] = e["n"]
                    for x in t[j:]:
                        if x["e"] == "ret" and x["t"] == t[j]["t"]:
                            x["n"] = e["n"]
                            break
                    return t
    return None


def check(c):
    binary = vf.prog("cache", "sched", ["cache_sched.c", "sched/sched.c"])
    c.rule = ("every schedule up to a preemption bound, and random ones, of small programs of get/use/release over the real cache.c and tree.c "
              "with a loader which can fail; distinct = API histories which differ, each checked against CacheTrace.tla")
    if c.quick:
        res = vf.explore(c, binary, QUICK, 2, 40000, 2000)
    else:
        res = vf.explore(c, binary, DEEP, 3, 1500000, 60000)
    vf.model_check(c, "MCCacheConc" if c.quick else "MCCacheConcBig", workers=8)
    vf.model_check(c, "MCCacheNoLock", expect_violation="Invariant UniqueKey is violated")
    traces = [t for _, t in res]
    bad = vf.validate(c, "CacheTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by CacheTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    c.sample(max(traces, key=len))
    if not bad:
        vf.binding_selftest(c, "CacheTrace", traces, mutate)
