import vf

SHAPES = [(1, 1), (2, 1), (3, 1), (7, 1), (4, 2), (5, 2), (9, 3), (11, 3), (16, 4), (64, 1)]


def mutate(t):
    """a hit becomes a load"""
    for e in t:
        if e["e"] == "get" and e["loads"] == 0 and e["ok"] == 1:
            e["loads"] = 1
            return t
    return None


def history(rng, cap, conc, bits, ops):
    n = cap * 2 + 2
    lows = [rng.choice([i, -i]) for i in range(n)]
    if rng.random() < 0.3:
        lows += [-2147483648, 2147483647]
    keys = [(lo, rng.randint(-2, 2) if bits == 64 and rng.random() < .6 else 0) for lo in lows]
    if bits == 64:
        # keys of which one half is the same
        for lo, hi in rng.sample(keys, min(len(keys), 4)):
            keys += [(lo, hi + rng.choice([-1, 1, 65536, 2147483647 - abs(hi)])), (lo + rng.choice([1, -1, 65536]) if abs(lo) < 100000 else 0, hi)]
        keys = sorted(set(keys))
    hot = rng.sample(keys, min(len(keys), max(2, cap)))
    out, held = [], []
    pf = rng.choice([0, 0, .05, .1])
    ph = rng.choice([.3, .5, .7])
    for _ in range(ops):
        if held and rng.random() > ph:
            k = held.pop(rng.choice([0, -1, rng.randrange(len(held))]))
            out.append("r %d %d" % k)
        else:
            k = rng.choice(hot if rng.random() < .7 else keys)
            out.append("g %d %d %d" % (k[0], k[1], rng.random() < pf))
            held.append(k)
    return "%d %d %d " % (cap, conc, bits) + " ".join(out)


def check(c):
    binary = vf.prog("cachelru", "asan", ["cachelru.c"])
    c.rule = ("histories of get and release on caches of several capacities and concurrencies, with keys of either sign and loads which fail; some are "
              "behaviours of CacheLRU.tla found by TLC, the others random; distinct = recorded traces which differ")
    vf.model_check(c, "MCCacheLRU" if c.quick else "MCCacheLRU", None if c.quick else "MCCacheLRUBig.cfg", workers=8)
    scripts = []
    for cap, conc in [(1, 1), (2, 1), (3, 1), (4, 2), (9, 3)] + ([] if c.quick else [(5, 2), (11, 3)]):
        for h in vf.behaviours(c, "GenCacheLRU", 60 if c.quick else 1500, 40, env={"CAP": str(cap)}):
            scripts.append("%d %d 32 " % (cap, conc) + " ".join(
                ("g %d %d %d" % (o["lo"], o["hi"], o["f"])) if o["o"] == "g" else "r %d %d" % (o["lo"], o["hi"]) for o in h))
    # every transition of the specification, at the end of a shortest history
    for h in vf.transitions(c, "GenCacheSteps", None if c.quick else "GenCacheStepsBig.cfg"):
        bits = c.rng.choice([32, 64])
        keys = c.rng.sample([(0, 0), (1, 0), (-1, 0), (2, 0), (-2, 0), (2147483647, 0), (-2147483648, 0)]
                            + ([(0, 1), (1, 1), (-1, -1), (1, -1), (0, 2147483647)] if bits == 64 else []), 7)
        held = {}
        for k, f in h:
            held[k] = held.get(k, 0) + (-1 if f == 2 else 1)
        # what the last state is shows in what comes next
        for _ in range(6):
            if sum(held.values()) and c.rng.random() < .5:
                k = c.rng.choice([k for k in held if held[k]])
                held[k] -= 1
                h.append([k, 2])
            else:
                k = c.rng.randint(1, 6)
                held[k] = held.get(k, 0) + 1
                h.append([k, 0])
        scripts.append("%d 1 %d " % (3 if c.quick else 4, bits) + " ".join(
            ("g %d %d %d" % (*keys[k], f)) if f < 2 else "r %d %d" % keys[k] for k, f in h))
    for cap in range(0, 12):
        for conc in range(0, 5):
            scripts.append("%d %d 32 g 1 0 0 r 1 0" % (cap, conc))
    # shards which a byte does not count
    for _ in range(2 if c.quick else 10):
        scripts.append(history(c.rng, 300, 257, 64, 150).replace("300 ", "%d " % (257 * 257 + c.rng.choice([0, 1, 256])), 1))
    for i in range(300 if c.quick else 12000):
        cap, conc = c.rng.choice(SHAPES)
        scripts.append(history(c.rng, cap, conc, c.rng.choice([32, 64]), c.rng.choice([20, 60, 150])))
    vf.sequential(c, binary, "CacheLRUTrace", scripts, mutate=mutate)
