import os, shutil, tempfile
import vf


class Gen:
    def __init__(self, rng, faults):
        self.rng, self.faults = rng, faults

    def fault(self):
        if self.faults and self.rng.random() < .2:
            return "%s %d" % (self.rng.choice("aaarrs"), self.rng.randint(1, 3))
        return "- 0"

    def large(self, src=None):
        """more items, or bytes, than one or two bytes count"""
        kind, n, es = self.rng.choice([("f", 300, 300), ("v", 300, 600), ("f", 700, 4), ("v", 4, 30000), ("f", 3, 40000)])
        return self.script(src, (kind, n, es, self.rng.choice([0, 255, 256, 257, n - 1, n, 1000, 100000]),
                                 self.rng.choice([(0, 0), (300, 1), (3, 1), (70000, 257), (4, 2)])))

    def script(self, src=None, size=None):
        r = self.rng
        kind = r.choice("ffv")
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20])
        es = r.choice([4, 4, 4, 1, 6, 9])
        if size:
            kind, n, es = size[:3]
        src = src or r.choice("mffff")
        loaded = r.choice([0, 0, 0, 1, 2, n // 2, max(0, n - 1), n, n + 1, 1000])
        cap, conc = r.choice([(0, 0), (0, 1), (1, 1), (2, 1), (3, 1), (4, 2), (5, 2), (40, 1), (9, 3), (1, 2), (10, 0)])
        pool = r.choice([1, 1, 2, 3, 8])
        if size:
            loaded, (cap, conc) = size[3:]
        lens = [es if kind == "f" else 3 + (k * 5 + es) % (9 if es < 100 else es) for k in range(n)]
        offs = [k if kind == "f" else sum(lens[:k]) for k in range(n)]
        size = sum(lens)
        avail = -1
        if self.faults and r.random() < .35 and size:
            avail = r.choice([0, size - 1, size // 2, r.randrange(size)])
        cf = "- 0"
        if self.faults and r.random() < .25:
            cf = "%s %d" % (r.choice("aaars"), r.randint(1, 6))
        head = "%s %d %d %d %d %d %d %d %s %d %s" % (kind, n, es, r.random() < .5, loaded, cap, conc, pool, src, avail, cf)
        far = [n, n + 1, 2147483647, -1, -2147483648] if kind == "f" else [size, size + 5, 2147483647, -1, -2147483648]
        ops = []
        for _ in range(r.choice([6, 15, 30, 60] if not size else [25])):
            p = r.random()
            key = r.choice(offs) if offs and r.random() < .88 else r.choice(far)
            if p < .5:
                ops.append("g %d %d %s" % (r.randrange(5), key, self.fault()))
            elif p < .8:
                ops.append("r %d" % r.randrange(5))
            elif p < .87 and kind == "f" and es == 4:
                ops.append("i %d %s" % (key, self.fault()))
            elif p < .95 and kind == "f" and es == 4 and n and not (self.faults and cap and conc and src == "f"):
                lo = r.choice([0, 0, r.randrange(n)])
                hi = r.choice([n - 1, n - 1, r.randrange(n)])
                f = self.fault() if src == "f" else "- 0"
                ops.append("S %d %d %d %d %d %s" % (5 + r.randrange(3), lo, hi, r.choice([10 * r.randrange(-1, n + 1) + 5, r.randint(-3, 10 * n + 3)]),
                                                    r.choice([0, 0, 0, 1, 2]) if self.faults else 0, f))
            elif p < .97:
                ops.append("r %d" % (5 + r.randrange(3)))
            elif self.faults:
                ops.append("H %d" % r.randint(1, pool + 1))
                if r.random() < .7:
                    ops.append("g %d %d - 0" % (r.randrange(5), key))
                    ops.append("h")
        return head + " " + " ".join(ops)


def systematic_faults(rng):
    """every allocation, read and seek of one creation and of one get fails in turn"""
    out = []
    for kind in "fv":
        for loaded, cap, conc in [(0, 0, 0), (2, 0, 0), (0, 3, 1), (2, 3, 1), (9, 3, 1), (9, 0, 0)]:
            for f in "ars":
                for i in range(1, 9):
                    out.append("%s 5 4 1 %d %d %d 2 f -1 %s %d g 0 0 - 0 r 0" % (kind, loaded, cap, conc, f, i))
                for i in range(1, 4):
                    key = 3 if kind == "f" else None
                    lens = [4 if kind == "f" else 3 + (k * 5 + 4) % 9 for k in range(5)]
                    offs = [k if kind == "f" else sum(lens[:k]) for k in range(5)]
                    out.append("%s 5 4 1 %d %d %d 2 f -1 - 0 g 0 %d - 0 r 0 g 0 %d %s %d r 0 g 1 %d - 0 g 2 %d %s %d r 1 r 2" % (
                        kind, loaded, cap, conc, offs[2], offs[3], f, i, offs[4], offs[3], f, i))
    return out


def steps(c):
    """every transition of the specification, at the end of a shortest history"""
    r, out = c.rng, []
    for h in vf.transitions(c, "GenCollectionSteps", None if c.quick else "GenCollectionStepsBig.cfg"):
        (kind, loaded, cap, avail), ops = h[0], h[1:]
        es = r.choice([1, 4, 6, 9])
        lens = [es if kind == "f" else 3 + (k * 5 + es) % 9 for k in range(3)]
        keys = [0, 1, 2, r.choice([3, -1, 2147483647])] if kind == "f" else [0, lens[0], lens[0] + lens[1], r.choice([sum(lens), -1, 2147483647])]
        bytes_ = -1 if avail == 3 else lens[0] + lens[1] + r.randrange(lens[2])
        s, held = [], set()
        for o in ops:
            if o[0] == "g":
                s.append("g %d %d %s" % (o[1], keys[o[2]], "%s %d" % (r.choice("rrs"), r.choice([1, 1, 2])) if o[3] else "- 0")); held.add(o[1])
            elif o[0] == "r":
                s.append("r %d" % o[1]); held.discard(o[1])
            else:
                s.append("H 1" if o[0] == "H" else "h")
        # what the last state is shows in what comes next
        for _ in range(4):
            slot = r.randrange(3)
            s.append("r %d" % slot if r.random() < .4 else "g %d %d - 0" % (slot, keys[r.randrange(3)]))
        out.append("%s 3 %d %d %d %d %d 1 f %d - 0 %s" % (kind, es, r.random() < .5, loaded, cap, 1 if cap else r.choice([0, 1]), bytes_, " ".join(s)))
    return out


def mutate(t):
    """a byte of an item differs"""
    for e in reversed(t):
        if e["e"] == "get" and e["ok"] and e["b"]:
            e["b"][-1] = (e["b"][-1] + 1) % 256
            return t
    return None


def check(c, faults):
    c.rule = ("histories of get, release, integer reads and searches on collections of every kind of configuration (memory, file, partly loaded, cached "
              "and their combinations, fixed and variable width)" + (" with failing allocations, reads and seeks, truncated files and no free handles"
              if faults else "") + "; distinct = recorded traces which differ")
    vf.models(c, "MCCollection")
    g = Gen(c.rng, faults)
    n = (4000 if c.quick else 30000)
    scripts = [g.script() for _ in range(n)] + [g.large() for _ in range(6 if c.quick else 40)]
    if faults:
        scripts += systematic_faults(c.rng)
        scripts += steps(c)
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        vf.sequential(c, vf.prog("collection", "fault", ["collection.c"]), "CollectionTrace", scripts, mutate=mutate, args=[d], par=8)
        only = [g.script("f") for _ in range(n // 5)] + [g.large("f") for _ in range(1 if c.quick else 8)]
        vf.sequential(c, vf.prog("collection", "faultmem", ["collection.c"]), "CollectionTrace", only, args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
