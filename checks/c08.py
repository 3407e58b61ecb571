import itertools
import vf


def mutate(t):
    """a key is not found any more"""
    for e in reversed(t):
        if len(e.get("found", [])) > 1:
            e["found"].pop(0)
            return t
    return None


def check(c):
    binary = vf.prog("tree", "asan", ["tree.c"])
    c.rule = ("all insertion orders of up to 5 keys with all deletion orders (samples of 6 to 8 keys), and random, ascending and descending histories "
              "of up to 400 keys of either sign and of up to 64 bits; distinct = recorded traces which differ")
    vf.model_check(c, "MCRBTree", None if c.quick else "MCRBTreeBig.cfg", workers=8)
    s = []
    for n in range(1, 5 if c.quick else 6):
        for p in itertools.permutations(range(n)):
            for d in itertools.permutations(range(n)):
                m = c.rng.choice([0, 40, 61 if n > 4 else 62])
                s.append("%d " % m + " ".join("i %d" % (k - 2) for k in p) + " " + " ".join("d %d" % (k - 2) for k in d))
    for _ in range(500 if c.quick else 8000):
        n = c.rng.randint(6, 12)
        p = [k - n // 2 for k in range(n)]
        c.rng.shuffle(p)
        d = p[:]
        c.rng.shuffle(d)
        s.append("%d " % c.rng.choice([0, 33, 55, 60]) + " ".join("i %d" % k for k in p) + " " + " ".join("d %d" % k for k in d))
    for i in range(60 if c.quick else 1500):
        n = c.rng.choice([20, 40])
        o, live = [], []
        for _ in range(c.rng.choice([60, 120])):
            if live and c.rng.random() < c.rng.choice([.35, .5]):
                o.append("d %d" % live.pop(c.rng.randrange(len(live))))
            else:
                k = c.rng.randint(-n, n)
                if k not in live:
                    live.append(k)
                    o.append("i %d" % k)
        s.append("%d " % c.rng.choice([0, 31, 33, 52]) + " ".join(o))
    for n in ([270] if c.quick else [270, 400]):
        for order in (range(n), range(n - 1, -1, -1), [x for y in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for x in y]):
            order = list(order)
            s.append("32 " + " ".join("q i %d" % k for k in order) + " " + " ".join("q d %d" % k for k in order[:n - 10]) + " i -5")
            s.append("0 " + " ".join("q i %d" % k for k in order) + " " + " ".join("q d %d" % k for k in reversed(order[10:])) + " i -5")
    # every transition of the specification, at the end of a shortest history
    for h in vf.transitions(c, "GenRBTree", None if c.quick else "GenRBTreeBig.cfg"):
        s.append("%d " % c.rng.choice([0, 0, 32, 60]) + " ".join("q %s %d" % ("i" if k > 0 else "d", abs(k) - 4) for k in h[:-1]) + " %s %d" % ("i" if h[-1] > 0 else "d", abs(h[-1]) - 4))
    vf.sequential(c, binary, "TreeTrace", s, mutate=mutate, par=8)
