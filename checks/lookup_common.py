import os, shutil, struct, tempfile
import vf
from vf import hexs


def raw(b):
    return "x" + bytes(b).hex()


COORDS = ["0.5,1.25", "-12.75,100", "3,4", "0,0", "1000.125,-0.5", "51.5,-0.125", "51.5,0.125", "51.5,-0.1250001",
          "3,-4", "-3,4", "3,4.5", "0.5,1.2500001", "-12.75,-100", "1000.125,0.5", "2,4", "3,65536"]
IPS = ["0.0.0.0", "1.2.3.4", "10.0.0.255", "255.255.255.255", "::1", "2001:db8::ff", "::", "8001::1"]


def coord(t):
    a, b = t.split(",")
    return struct.pack("<ff", float(a), float(b))


def ipb(t):
    import ipaddress
    return ipaddress.ip_address(t).packed


class Gen:
    """a data set whose values are sorted by name within each property"""

    def __init__(self, rng, faults):
        self.r, self.faults = rng, faults
        self.strings, self.index = [], {}

    def string(self, b):
        b = bytes(b)
        if b not in self.index:
            self.index[b] = len(self.strings)
            self.strings.append(b)
        return self.index[b]

    def text(self, s):
        return self.string(s.encode("latin1") + b"\0")

    def fault(self, p=.25):
        if self.faults and self.r.random() < p:
            return "%s %d" % (self.r.choice("aarrs"), self.r.choice([1, 1, 2, 2, 3, 4, 5, 7]))
        return "- 0"

    def word(self):
        r = self.r
        return "".join(r.choice("abAB\xe9z-") for _ in range(r.randint(1, 4)))

    def anytext(self):
        r = self.r
        return -1 if r.random() < .08 else self.text(r.choice(["", "d", "description of it", "http://x", self.word()]))

    def script(self):
        r = self.r
        self.values, self.props = [], []
        names = list(dict.fromkeys(self.word() for _ in range(r.choice([1, 2, 3, 5]))))
        for n in names:
            kind = r.choice("tttttic")
            k = r.choice([0, 1, 1, 2, 3, 6, 9])
            if kind == "t":
                # sorted as unsigned bytes, a prefix first
                vs = sorted({self.word().encode("latin1") + b"\0" for _ in range(k)})
            elif kind == "i":
                vs = sorted({b"\2" + ipb(r.choice(IPS)) for _ in range(k)})
            else:
                vs = sorted({b"\1" + coord(r.choice(COORDS)) for _ in range(k)})
            first, last = (len(self.values), len(self.values) + len(vs) - 1) if vs else (-1, -1)
            for v in vs:
                self.values.append((len(self.props), self.string(v), self.anytext(), self.anytext()))
            self.props.append((self.text(n), first, last, r.randrange(9), self.anytext(), self.anytext(), self.anytext(), kind, vs, n))
        ids = r.sample([1, 2, 3, 7, 8, 100, 101, 65536, 2147483647, 50, 51, 0, -1, -2, -2147483648], r.choice([1, 2, 4, 7]))
        profs = []
        for i in ids:
            p = r.choice([0, .3, .6, 1])
            profs.append((r.randrange(3), i, [v for v in range(len(self.values)) if r.random() < p]))
        comps = []
        for i in range(r.choice([1, 1, 2, 3])):
            kv = [(r.randrange(1000), r.randrange(1000)) for _ in range(r.choice([0, 1, 1, 2, 4]))]
            comps.append((i + 1, self.anytext(), r.choice([-1] + list(range(len(profs))) * 3), kv))
        return self.join(profs, comps, self.ops(names, ids, profs, comps))

    def join(self, profs, comps, ops):
        r = self.r
        s = ["%d" % len(self.strings)] + [raw(b) for b in self.strings]
        s += ["%d" % len(self.values)] + ["%d %d %d %d" % v for v in self.values]
        s += ["%d" % len(self.props)] + ["%d %d %d %d %d %d %d" % p[:7] for p in self.props]
        s += ["%d" % len(profs)] + ["%d %d %d %s" % (c, i, len(v), " ".join(map(str, v))) for c, i, v in profs]
        s += ["%d" % len(comps)] + ["%d %d %d %d %s" % (i, n, d, len(kv), " ".join("%d %d" % x for x in kv)) for i, n, d, kv in comps]
        s += ["%d" % r.choice([1, 2])]
        same = r.random() < .4
        how = self.how()
        for _ in range(6):
            s.append(how if same else self.how())
        return " ".join(s + ops)

    def large(self):
        """tables and lists of over 255 entries, as many values of one property and of one profile, pairs of one component, and a text of over 255 bytes"""
        r = self.r
        n = r.randint(258, 262)
        vs = sorted(("%d" % i)[::-1].encode() + b"v\0" for i in range(n))
        long = sorted(b"L" * k + b"\0" for k in (255, 256, 257, 300))
        self.values, self.props = [], []
        few = [b"n\0", b"y\0"]
        for name, kind, v in (("few", "t", few), ("many", "t", vs), ("long", "t", long), ("few2", "t", few)):
            first = len(self.values)
            self.values += [(len(self.props), self.string(x), -1, -1) for x in v]
            self.props.append((self.text(name), first, first + len(v) - 1, 1, -1, -1, -1, kind, v, name))
        ids = r.sample(range(1, 3000), n - 3) + [65536, 2147483647, -1]
        r.shuffle(ids)
        everything = list(range(len(self.values)))
        profs = [(r.randrange(2), i, everything if j in (0, n - 1) else sorted({1, r.randrange(len(everything))})) for j, i in enumerate(ids)]
        comps = [(1, self.text("c"), n - 1, [(i, i * 3) for i in range(n)]), (2, -1, 0, [(7, 8)])]
        o = []
        for p in (1, 2, 0):
            for x in r.sample(self.props[p][8], 2) + [self.props[p][8][-1]]:
                o.append("%s %d %s - - 0" % (r.choice("vi"), p, hexs(x[:-1].decode())))
        for i in r.sample(ids, 3) + [ids[0], ids[-1]]:
            o.append("%s %d - 0" % (r.choice("po"), i))
        o += ["q %d - 0" % i for i in (255, 256, n - 1, n)]
        o += ["V %d 1 %d %d - 0" % (i, stop, keep) for i, stop, keep in ((0, 0, 0), (n - 1, 257, 1), (n - 1, 0, 0))] + ["V 0 3 0 0 - 0"]
        o += ["W %s %s %d - 0" % (hexs("few"), hexs("y"), stop) for stop in (0, 257)]
        o += ["d 0 - 0", "k 0 255 - 0", "k 0 256 - 0", "k 0 %d - 0" % n]
        o += ["L %d %d %s - 0" % (n + 1, n, " ".join(str(r.randrange(len(self.strings))) for _ in range(n)))]
        return self.join(profs, comps, o)

    def how(self):
        r = self.r
        if r.random() < .2:
            return "m 0 0 0"
        cap = r.choice([0, 0, 30, 40])
        return "f %d %d %d" % (r.choice([0, 0, 1, 3, 40, 1000]), cap, 1 if cap else 0)

    def sought(self, p):
        r = self.r
        vs, kind = p[8], p[7]
        if kind == "c":
            if r.random() < .15:
                return hexs("nocomma") + " -"
            t = r.choice(COORDS)
            return hexs(t) + " " + raw(coord(t))
        if kind == "i":
            return hexs(r.choice(IPS) if r.random() < .9 else "none") + " -"
        if vs and r.random() < .7:
            v = r.choice(vs)[:-1].decode("latin1")
            if r.random() < .15:
                v = v + "x" if r.random() < .5 else v[:-1]
        else:
            v = self.word()
        return hexs(v) + " -"

    def ops(self, names, ids, profs, comps):
        r = self.r
        o = []
        for _ in range(r.choice([6, 14, 25])):
            k = r.choice("nvviipoqVVWWdkclLgGtC")
            pi = r.randrange(len(self.props))
            if k == "n":
                o.append("n %s %s" % (hexs(r.choice(names) if r.random() < .8 else self.word()), self.fault()))
            elif k in "vi":
                o.append("%s %d %s %s" % (k, pi, self.sought(self.props[pi]), self.fault()))
            elif k in "po":
                o.append("%s %d %s" % (k, r.choice(ids) if r.random() < .75 else r.choice([0, 4, 9, 1, 2147483646, -1, -2147483648]), self.fault()))
            elif k == "q":
                o.append("q %d %s" % (r.choice([0, 1, len(profs) - 1, len(profs), -1, r.randrange(len(profs))]), self.fault()))
            elif k == "V":
                o.append("V %d %d %d %d %s" % (r.randrange(len(profs)), pi, r.choice([0, 0, 1, 2, 3]), r.random() < .3, self.fault()))
            elif k == "W":
                p = self.props[pi]
                o.append("W %s %s %d %s" % (hexs(p[9] if r.random() < .9 else self.word()), (self.sought(p) if p[7] != "c" else hexs("nocomma") + " -").split()[0], r.choice([0, 0, 0, 1, 2]), self.fault()))
            elif k in "dc":
                o.append("%s %d %s" % (k, r.randrange(len(comps)), self.fault()))
            elif k == "k":
                i = r.randrange(len(comps))
                o.append("k %d %d - 0" % (i, r.choice([0, 1, len(comps[i][3]), len(comps[i][3]) - 1, 65535]) % 65536))
            elif k == "l":
                o.append("l " + self.fault())
            elif k == "L":
                n = r.randint(0, 6)
                o.append("L %d %d %s %s" % (r.choice([1, n, n + 2]) or 1, n, " ".join(str(r.randrange(len(self.strings))) for _ in range(n)), "a 1" if self.faults and r.random() < .15 else "- 0"))
            elif k == "g":
                o.append("g %d %s %s" % (pi, r.choice("ndcu"), self.fault()))
            elif k == "G" and self.values:
                o.append("G %d %s %s" % (r.randrange(len(self.values)), r.choice("ndu"), self.fault()))
            elif k == "t":
                o.append("t %d %s" % (r.choice([pi, pi, len(self.props), -1]), self.fault()))
            elif k == "C":
                o.append("C %d" % r.randrange(len(self.strings)))
        return o


def mutate(t):
    for e in t:
        if e["e"] == "byid" and e["profile"]:
            e["profile"][0]["id"] += 1
            return t
        if e["e"] == "value" and e["st"] == "ok":
            e["i"] += 1
            return t
    return None


def check(c, faults):
    c.rule = ("data sets of properties, values (text, addresses, coordinates), profiles and components in collections of any kind, and lookups of what is there and what is not" +
              (" with failing allocations, reads and seeks" if faults else "") + "; distinct = recorded traces which differ")
    vf.models(c, "MCLookup")
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    s = [Gen(c.rng, faults).script() for _ in range(4000 if c.quick else 40000)] + [Gen(c.rng, False).large() for _ in range(2 if c.quick else 12)]
    try:
        vf.sequential(c, vf.prog("lookup", "fault", ["lookup.c"]), "LookupTrace", s, mutate=mutate, args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
