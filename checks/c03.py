import vf

QUICK = ["2:gur|gur", "1:gur|gur", "2:gur|ggRr", "3:gur|ggurgur", "3:gugrr|ggrgrr", "2:gr|gr|gr", "1:gr|gr|gr", "3:gr|ggRgrr",
         "2:ggg|r", "3:gur|gggrRr", "4:ggrr|ggRR", "3:g|g|g", "2:gurgur|gur|g"]
DEEP = QUICK + ["3:gr|gr|ggrr", "2:gr|gr|gr|gr", "3:gur|gggrRrgur", "4:ggRr|ggrR|gr", "5:gggrrr|gggRRR", "3:gugr|ggrr|gur", "1:g|g|g|g"]


def delayed(n):
    """one thread delayed anywhere in a get or a release while another does any
    sequence of n operations"""
    out = []

    def more(seq, held):
        if len(seq) == n:
            out.append(seq)
            return
        more(seq + "g", held + 1)
        if held:
            more(seq + "r", held - 1)
        if held > 1:
            more(seq + "R", held - 1)
    more("", 0)
    return ["4:%s|%s" % (a, s) for a in ("g", "grg") for s in out]


def mutate(t):
    """one item given to two at once"""
    for i, e in enumerate(t):
        if e["e"] == "ret" and e.get("op") == "get" and e["r"]:
            for j in range(i + 1, len(t)):
                if t[j]["e"] == "call" and t[j]["op"] == "rel" and t[j]["r"] == e["r"]:
                    break
                if t[j]["e"] == "ret" and t[j]["op"] == "get" and t[j]["r"] and t[j]["r"] != e["r"]:
                    t[j]["r"] = e["r"]
                    return t
    return None


def check(c):
    binary = vf.prog("pool", "sched", ["pool_sched.c", "sched/sched.c"])
    c.rule = ("every schedule up to a preemption bound, and random ones, of small programs of get/use/release over the real pool.c; "
              "distinct = API histories which differ, each checked against PoolTrace.tla")
    if c.quick:
        res = vf.explore(c, binary, QUICK, 3, 80000, 3000)
        models = ["MCPoolA", "MCPoolB"]
    else:
        res = vf.explore(c, binary, DEEP, 5, 2500000, 100000)
        models = ["MCPoolA", "MCPoolB", "MCPoolC"]
    d = delayed(5 if c.quick else 7)
    res += vf.explore(c, binary, [d[i::16] for i in range(16)], 2 if c.quick else 3, 20000, 20)
    # more items than a byte counts
    res += vf.explore(c, binary, ["300:ggrRr", "257:gr|g"], 0, 2, 1)
    for m in models:
        vf.model_check(c, m, workers=8)
    vf.model_check(c, "MCPoolNoAba", expect_violation="Invariant Conserved is violated")
    c.assumptions.append("a thread is not delayed for exactly 65536 other operations between reading the head and its compare and swap "
                         "(PoolCAS.tla with ABAMOD small shows what happens otherwise)")
    traces = [t for _, t in res]
    bad = vf.validate(c, "PoolTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by PoolTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    c.sample(max(traces, key=len))
    if not bad:
        vf.binding_selftest(c, "PoolTrace", traces, mutate)
