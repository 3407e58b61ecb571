import vf

QUICK = ["w|s", "w|w|s", "ww|s", "ww|ss", "www|s|s", "w|ws|s", "w|w|w|ss", "ws|ws|w", "wsw|sw|w", "LcU|LcU", "LcU|LcU|LcU", "LcUwLcU|LcUsLcU|w",
         "ww|sLcU|LcUs", "s|s|wwww"]
DEEP = QUICK + ["w|w|w|w|ss", "ww|ww|ss|s", "wsws|wsws|wsws", "LcULcU|LcULcU|LcU", "ww|ww|sws", "w|w|s|s|s", "wss|wsw|ws"]


def mutate(t):
    """one wait more than the sets allow"""
    for i, e in enumerate(t):
        if e["e"] == "ret" and e["op"] == "set":
            j = max(k for k in range(i) if t[k]["e"] == "call" and t[k]["t"] == e["t"])
            w = [k for k in range(i, len(t)) if t[k]["e"] == "ret" and t[k]["op"] == "wait"]
            if len(w) and sum(1 for x in t if x["e"] == "ret" and x["op"] == "set") + 1 == sum(1 for x in t if x["e"] == "ret" and x["op"] == "wait"):
                del t[i]
                del t[j]
                return t
    return None


def check(c):
    binary = vf.prog("signal", "sched", ["signal_sched.c", "sched/sched.c"])
    c.rule = ("every schedule up to a preemption bound, and random ones, with spurious wake ups, of small programs of wait/set/lock/unlock over "
              "the real threading.c; distinct = API histories which differ, each checked against SignalTrace.tla")
    if c.quick:
        res = vf.explore(c, binary, QUICK, 4, 60000, 3000)
    else:
        res = vf.explore(c, binary, DEEP, 6, 2000000, 60000)
    vf.model_check(c, "MCSignal", workers=8)
    vf.model_check(c, "MCSignal", "MCSignalOnce.cfg", expect_violation="is violated")
    vf.model_check(c, "MCSignal", "MCSignalIf.cfg", expect_violation="Invariant AtMost is violated")
    traces = [t for _, t in res]
    bad = vf.validate(c, "SignalTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by SignalTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    c.sample(max(traces, key=len))
    if not bad:
        vf.binding_selftest(c, "SignalTrace", traces, mutate)
