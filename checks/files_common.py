import shutil, tempfile
import vf

SIZES = [0, 0, 1, 2, 9, 100, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 8191, 8192, 8193, 16384, 16385, 20000]
NAMES = ["m.dat", "m", "m.dat.bak", "m-1", "mm.dat", "a.b.c", "a.b", "other", ".h", "M.dat", "m-12-ABC"]
FORMS = {0: ["0e", "0p", "0s", "0a"], 1: ["1p", "1s", "1r", "1a", "1L3000", "1L4060", "1L4090", "1L5000"], 2: ["2p", "2s", "2r", "2a"], 3: ["3p", "3s"], 4: ["4p", "4s"], 5: ["5p", "5a"]}
USUAL = {0: ["0e", "0p"], 1: ["1p", "1s", "1r"], 2: ["2p", "2r"], 3: ["3p"], 4: ["4p"], 5: ["5p"]}


class Gen:
    def __init__(self, rng):
        self.r = rng

    def dir(self, usual=True, dirs=(0, 1, 1, 2, 2, 3, 4, 5)):
        d = self.r.choice(dirs)
        return self.r.choice((USUAL if usual else FORMS)[d])

    def file(self, names=NAMES, dirs=(0, 0, 1, 1, 2, 2, 3, 5)):
        return "%s %s" % (self.dir(dirs=dirs), self.r.choice(names))

    def content(self, sizes=None):
        n = self.r.choice(sizes or SIZES)
        return "%d %d" % (n, self.r.choice([-1, -1, -1, 0, n - 1, n // 2, 1023, 1024, 1025, 100]) if n else -1)

    def fault(self, kinds, p=.25):
        if self.r.random() >= p:
            return ""
        k = self.r.choice(kinds)
        # a name which exists already is only seen by opening it, so the clock must
        # not repeat itself when that can fail
        return ("C -1 " if k == "o" else "") + "F %s %d " % (k, self.r.choice([1, 1, 2, 2, 3, 4, 5, 8]))

    def paths(self, usual=None):
        r = self.r
        k = r.choice([-1, 0, 1, 1, 2, 2, 3, 4])
        if usual is None:
            usual = r.random() < .8
        return "%d%s" % (k, "".join(" " + self.dir(usual) for _ in range(max(0, k))))

    def plain(self):
        """the file operations"""
        r = self.r
        names = r.sample(NAMES, 3)
        ops, held = [], 0
        for _ in range(r.choice([6, 12, 20])):
            k = r.choice("wwwwccccddmzzrrggpph")
            if k == "w":
                ops.append(self.fault("owWc", .2) + "w %s %s" % (self.file(names), self.content()))
            elif k == "c":
                a, b = self.file(names), self.file(names)
                if a.split()[1] == b.split()[1] and a[0] == b[0]:
                    continue
                ops.append(self.fault("orRsswWWc", .4) + "c %s %s" % (a, b))
            elif k == "d":
                ops.append(self.fault("m", .15) + "d " + self.file(names))
            elif k == "m":
                ops.append("m " + self.dir(dirs=(3, 3, 4, 1, 2)))
            elif k == "z":
                ops.append(self.fault("ost", .2) + "z " + self.file(names))
            elif k == "r":
                ops.append(self.fault("aorRst", .3) + "r " + self.file(names))
            elif k == "g":
                s = "".join(r.choice(["a", "b.c", "/", "\\", "//", ".", "dd", "\xc3"]) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])))
                ops.append("g " + vf.hexs(s))
            elif k == "p":
                ops.append(self.fault("oo", .1) + "p %s %s %d" % (r.choice(["d1", "d1", "e.x", "none", "vfnowhere"]), r.choice(names), r.choice([4096, 4096, 300, 300, 60, 45] + list(range(60, 110, 1)))))
            elif k == "h" and held < 12:
                ops.append("h " + self.file(names)); held += 1
        return " ".join(ops)

    def temps(self):
        """the protocol of temporary files"""
        r = self.r
        names = r.sample(NAMES, 2) + ["m.dat"]
        sizes = r.sample(SIZES, 2)
        nt = 0
        ops = ["w %s %s %s" % (self.dir(dirs=(0, 1, 2)), names[i], self.content(sizes)) for i in range(r.choice([1, 2, 3]))]
        if r.random() < .5:
            ops.append("m 3p")
        clock = r.randrange(1000000)
        held = 0
        for _ in range(r.choice([6, 12, 24])):
            k = r.choice("wwcnnnnnnlfffffuuuudhhheettC")
            t = "%s T%d" % (r.choice(["1p", "0e"]), r.randrange(nt)) if nt else self.file(names)
            master = self.file(names, (0, 1, 2)) if r.random() < .9 else t
            if k == "w":
                ops.append("w %s %s" % (self.file(names + ["m-x", "mx", "a.b-9"]) if r.random() < .6 else t, self.content(sizes)))
            elif k == "c":
                ops.append("c %s %s" % (master, self.file(["m-x", "mx", "m.x", "a.b-9", "a.b-77"])))
            elif k == "n":
                if r.random() < .3:
                    ops.append("C %d" % (clock + r.randrange(2)))
                n = r.choice([4096] * 8 + [5000, 300, 70, 60, 50, 45, 40, 36, 35, 34, 33, 32, 31, 30, 25, 10, 1, 0])
                ops.append(self.fault("orRsswWWcd", .25) + "n %s %s %d" % (master, self.paths(), n)); nt += 1
            elif k == "l":
                if r.random() < .3:
                    ops.append("C %d" % (clock + r.randrange(2)))
                ops.append(self.fault("orRsswWWc", .25) + "l %s %s" % (master, self.paths())); nt += 1
            elif k == "f":
                ops.append(self.fault("orRstd", .2) + "f %s %s %d" % (master, self.paths(), r.choice([-1, -1, 0, 1, 2, 100, 1023, 1024, 1025, 2000, 5000, 1 << 30])))
            elif k == "u":
                f = r.choice(["F m %d " % r.choice([1, 2, 3]), "F o %d " % r.choice([1, 2, 5]), "F r 1 ", "F d 1 ", "F d 2 "]) if r.random() < .2 else ""
                ops.append(f + "u %s %s %d" % (master, self.paths(), r.choice([-1, -1, -1, 0, 1, 100, 1024, 1025, 2000])))
            elif k == "d":
                ops.append("d " + r.choice([t, t, master]))
            elif k == "h" and held < 12:
                ops.append("h " + r.choice([t, t, t, master])); held += 1
            elif k == "e":
                ops.append("e %d" % r.randrange(4))
            elif k == "t":
                ops.append("t %s %d %d" % (r.choice(NAMES + ["dir.x/name", "a/b/m.dat", "."]) if r.random() < .97 else "n" * r.choice([4094, 4095, 4096, 4097, 5000]), r.choice([0, 0, 1, 5]), r.choice([100, 60, 40, 36, 34, 6000] + list(range(20, 45)) + [0, 1, 2])))
            elif k == "C":
                ops.append("C %d" % r.choice([clock, clock + 1, -1]))
        return " ".join(ops)


def many(r):
    """more than 255 temporary files"""
    return "w 0e m.dat 5 -1 " + "n 0e m.dat 1 1p 300 " * 300 + "u 0e m.dat 1 1p -1 u 0e m.dat 2 1p 2p -1"


SCALES = [(5, 3, 2), (5, 3, 3), (1, 0, 0), (3000, 1500, 1500), (1025, 1024, 1024), (2049, 1024, 1000), (9000, 8192, 8192)]


def steps(c):
    """every transition of the protocol of temporary files, at the end of a shortest history"""
    r, out = c.rng, []
    for h in vf.transitions(c, "GenFilesSteps", None if c.quick else "GenFilesStepsBig.cfg"):
        size, place, same = r.choice(SCALES)
        some = lambda x: "%d %d" % (size + x[0] - 5, -1 if x[1] < 0 else place)
        paths = lambda l: "%d %s" % (len(l), " ".join(r.choice(["0e", "0p", "0s"] if d == 0 else ["1p", "1s", "1r", "1a"]) for d in l))
        bytes_ = lambda b: -1 if b < 0 else same
        m, made_in, s = "0e " + r.choice(["m.dat", "m", "a.b.c"]), [], []
        s.append("w %s %s" % (m, some([5, -1])))
        end = [["f", [1], -1], ["f", [0, 1], 2], ["u", [1, 0], -1]]
        for o in h + (r.sample(end, 2) if r.random() < .5 else []):
            t = lambda i: "%s T%d" % ("0e" if made_in[i - 1] == 0 else "1p", i - 1)
            if o[0] == "w": s.append("w %s %s" % (m, some(o[1])))
            elif o[0] == "n": s.append("n %s %s 4096" % (m, paths(o[1]))); made_in.append(o[1][0])
            elif o[0] == "W": s.append("w %s %s" % (t(o[1]), some(o[2])))
            elif o[0] in "fu": s.append("%s %s %s %d" % (o[0], m, paths(o[1]), bytes_(o[2])))
            elif o[0] == "h": s.append("h " + t(o[1]))
            elif o[0] == "e": s.append("e %d" % (o[1] - 1))
            elif o[0] == "d": s.append("d " + t(o[1]))
        out.append(" ".join(s))
    return out


def plain_steps(c):
    """the same of writing, copying and deleting files"""
    r, out = c.rng, []
    for h in vf.transitions(c, "GenFileOpsSteps", None if c.quick else "GenFileOpsStepsBig.cfg"):
        names, dirs = r.sample(NAMES, 2), r.sample([0, 1, 2], 2)
        size, place, _ = r.choice(SCALES)
        some = lambda x: "%d %d" % (max(0, x[0] * size // 2), -1 if x[1] < 0 or x[0] == 0 else min(x[0] * size // 2 - 1, place + x[1]) if size > 1 else 0)
        f = lambda d, n: "%s %s" % (r.choice(USUAL[dirs[d]]), names[n])
        out.append(" ".join("w %s %s" % (f(o[1], o[2]), some(o[3])) if o[0] == "w" else
                            "d " + f(o[1], o[2]) if o[0] == "d" else "c %s %s" % (f(o[1], o[2]), f(o[3], o[4])) for o in h)
                   + " z %s r %s" % (f(0, 0), f(1, 1)))
    return out


def mutate(t):
    for e in reversed(t):
        if e["e"] in ("copy", "new", "write") and e["st"] == "ok" and e["ls"]:
            e["ls"][-1][2][0] += 1
            return t
        if e["e"] == "read" and e["st"] == "ok" and e["c"][0] > 0:
            e["c"][1] = (e["c"][1] + 2) % e["c"][0]
            return t
        if e["e"] == "base":
            e["at"] += 1
            return t
    return None


def run(c, kinds, n, extra=()):
    g = Gen(c.rng)
    scripts = list(extra) + [getattr(g, c.rng.choice(kinds))() for _ in range(n)]
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        return vf.sequential(c, vf.prog("files", "fault", ["files.c"]), "FilesTrace", scripts, mutate=mutate, args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
