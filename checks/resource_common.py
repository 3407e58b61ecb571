import vf

QUICK = ["1:ur|p", "0:gur|p", "0:gurgur|p", "0:gur|p|p", "0:gur|gur|p", "0:gur|pp", "1:r|ppp", "2:ur|gur|p",
         "2:ur|ur|f", "3:r|r|r", "2:ur|ur|p", "1:urgur|pp", "0:gpur|gur", "0:pgurp|gur", "0:ggurr|p"]
DEEP = QUICK + ["0:gurgur|gur|p", "0:gur|gur|p|p", "0:gur|gurgur|pp", "2:ur|ur|p|p", "3:ur|ur|ur|p", "0:gur|p|p|p", "4:urr|urr|f",
                "0:gpur|gpur", "0:gur|gur|gur|p"]


def mutate_safety(t):
    """a free of a resource while it is held"""
    for i, e in enumerate(t):
        if e["e"] == "ret" and e["op"] == "get":
            rel = [j for j in range(i, len(t)) if t[j]["e"] == "call" and t[j]["op"] == "rel" and t[j]["r"] == e["r"] and t[j]["t"] == e["t"]]
            if rel:
                t.insert(rel[0], {"e": "free", "t": e["t"], "r": e["r"]})
                return t
    return None


def mutate_reclaim(t):
    """a missing free"""
    for i, e in enumerate(t):
        if e["e"] == "free":
            del t[i]
            return t
    return None


def check(c, mode, mutate):
    binary = vf.prog("resource", "sched", ["resource_sched.c", "sched/sched.c"])
    c.rule = ("every schedule up to a preemption bound, and random ones, of small programs of get/use/release/replace/free over the real "
              "resource.c; distinct = API histories which differ, each checked against ResourceTrace.tla")
    if c.quick:
        models = ["MCResA", "MCResB"]
        res = vf.explore(c, binary, QUICK, 3, 60000, 3000)
    else:
        models = ["MCResA", "MCResB", "MCResC"]
        res = vf.explore(c, binary, DEEP, 4, 1500000, 100000)
    for m in models:
        vf.model_check(c, m, workers=8)
    # the specification is not vacuous: it shows the defects repaired in the code
    vf.model_check(c, "MCResNoRetry", expect_violation="Invariant NoLeak is violated")
    vf.model_check(c, "MCResNoEmpty", expect_violation="Invariant NoNullHandle is violated")
    vf.model_check(c, "MCResReuse", expect_violation="Invariant ActiveNotFreed is violated")
    traces = [t for _, t in res]
    env = {"MODE": mode}
    bad = vf.validate(c, "ResourceTrace", traces, env=env)
    for i, pos in bad:
        t = traces[i]
        ev = t[pos] if pos < len(t) else None
        c.violation("history not allowed by ResourceTrace (%s) in case %s at event %d: %s" % (mode, res[i][0], pos, ev),
                    dict(case=res[i][0], mode=mode, trace=t, position=pos,
                         rerun="build the driver with lib/vf.py and run it on this case"))
        if len(c.violations) >= 20:
            break
    late = sum(1 for t in traces if any(e["e"] == "uaf" for e in t))
    c.extra["histories_with_late_handle_read"] = late
    good = [t for i, t in enumerate(traces) if i not in dict(bad)]
    c.sample(max((t for t in good), key=len, default=[]))
    if not bad:
        vf.binding_selftest(c, "ResourceTrace", good, mutate, env=env)
