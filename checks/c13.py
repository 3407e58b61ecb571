import vf

CASES = ["1r|2r", "1g|2r", "1rx|2rx", "12RR|3r", "1r1r|2r2r", "1|2r|3r", "1gr|2gr", "ar|1r", "ara|2rg", "1r2rx|1r2rx", "1g1g|rx"]
DEEP = CASES + ["1r2r|3r|4rg", "12rr|12RR|x", "ar1r|2rar|g", "1r1r1r|1r1r1r", "123RrR|321rRr", "1g1g|r2r|rx"]


def mutate(t):
    for e in reversed(t):
        if e["e"] == "free" and e["alloc"] > 0:
            e["alloc"] -= 1
            return t
    return None


def mutconc(t):
    for e in t:
        if e["e"] == "totals" and e["max"] > 0:
            e["max"] += 8
            return t
    return None


def script(r):
    o, used, n = ["%d" % r.choice([0, 0, 0, 10, 30, 31, 32])], {}, r.choice([6, 15, 40])
    small = o[0] == "0"
    for _ in range(n):
        k = r.choice("mmmaaffffzyRSU" if r.random() < .3 else "mmmaaffff")
        free = [s for s in range(r.choice([4, 60])) if s not in used]
        if k in "ma" and free:
            s = r.choice(free)
            size = r.choice([0, 1, 7, 8, 15, 16, 17, 63, 64, 100, 1000, r.randrange(5000)]) if small else r.choice([1, 2, 3, 4, 5, 8])
            fail = r.choice([0] * 8 + [1, 2])
            if k == "m":
                o.append("m %d %d %d" % (s, size, fail))
            else:
                o.append("a %d %d %d %d" % (s, r.choice([8, 16, 32, 64, 128]), size, fail))
            used[s] = True
            if fail:
                o.append("?%d" % s)
                del used[s]
        elif k == "f" and used:
            s = r.choice(list(used))
            del used[s]
            o.append("f %d" % s)
        elif k in "zyRSU":
            o.append(k)
    return " ".join(x for x in o if x[0] != "?")


def steps(c):
    """every transition of the specification, at the end of a shortest history"""
    r, out = c.rng, []
    for h in vf.transitions(c, "GenMemorySteps", None if c.quick else "GenMemoryStepsBig.cfg"):
        scale = r.choice([0, 0, 10, 31])
        unit = r.choice([1, 7, 8, 64, 1000]) if scale == 0 else 1
        s = ["%d" % scale]
        for o in h:
            if o[0] == "m" or o[0] == "x":
                size, fail = (o[2] * unit, 0) if o[0] == "m" else (r.choice([1, 2, 3]) * unit, o[2])
                s.append("a %d %d %d %d" % (o[1], r.choice([8, 16, 32, 64, 128]), size, fail) if o[3] else "m %d %d %d" % (o[1], size, fail))
            elif o[0] == "f":
                s.append("f %d" % o[1])
            else:
                s.append(o[0])
        out.append(" ".join(s))
    return out


def check(c):
    c.rule = ("random histories of allocations (aligned or not, of up to tens of gigabytes), frees, failures, resets and changes of the allocator on the "
              "real memory.c; and every schedule up to a preemption bound of small programs, with an allocator which gives freed addresses again; "
              "distinct = recorded traces which differ")
    vf.models(c, "MCMemory")
    binary = vf.prog("memory", "heap", ["memory.c"])
    s = [script(c.rng) for _ in range(1500 if c.quick else 30000)] + steps(c)
    vf.sequential(c, binary, "MemoryTrace", s, mutate=mutate, par=8)
    binary = vf.prog("memconc", "sched", ["memory_sched.c", "sched/sched.c"])
    res = vf.explore(c, binary, CASES, 2, 60000, 2000) if c.quick else vf.explore(c, binary, DEEP, 4, 1500000, 50000)
    traces = [t for _, t in res]
    bad = vf.validate(c, "MemoryConcTrace", traces)
    for i, pos in bad[:20]:
        t = traces[i]
        c.violation("history not allowed by MemoryConcTrace in case %s at event %d: %s" % (res[i][0], pos, t[pos] if pos < len(t) else None),
                    dict(case=res[i][0], trace=t, position=pos))
    c.sample(max(traces, key=len))
    if not bad:
        vf.binding_selftest(c, "MemoryConcTrace", traces, mutconc)
