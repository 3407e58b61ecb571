import vf
from vf import hexs

SEP = "\x1f"
FIELDS = ["a", "User-Agent", "ua", "Sec-CH-UA", "sec-ch-ua", "USER-agent", "b", "x-y", "HTTP_X", "c", "dd"]
VALUES = ["", "v", "1", "Mozilla/5.0 (X)", "\"Brand\";v=\"99\"", "?1", "x" * 40, "A\x1fB", "\xe9t\xe9"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.names = []   # of the last headers made

    def name(self):
        r = self.r
        p = r.random()
        if p < .5:
            return r.choice(FIELDS)
        if p < .85:
            return SEP.join(r.choice(FIELDS) for _ in range(r.randint(2, 4)))
        if p < .9:
            return r.choice([SEP, SEP * 2, "a" + SEP, SEP + "b", "", "a" + SEP * 2 + "b", SEP + "c" + SEP, "HTTP_", "http_", "http_q" + SEP + "a"])
        return "".join(r.choice("abAB-_\x1f\xe9") for _ in range(r.randint(1, 9)))

    def headers(self, faults):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8])
        f = "- 0"
        if faults and r.random() < .3:
            f = "a %d" % r.randint(1, 2 * n + 2)
        self.names = [self.name() for _ in range(n)]
        return "H %d %s %d " % (r.random() < .5, f, n) + " ".join("%d %s" % (r.choice([0, 1, 5, 7, 2147483647, 40 + i]), hexs(x)) for i, x in enumerate(self.names))

    def known(self):
        """a name of the last headers, or one of its segments"""
        if not self.names:
            return self.name()
        n = self.r.choice(self.names)
        return n if self.r.random() < .5 else self.r.choice(n.split(SEP))

    def case(self, s):
        return "".join(x.upper() if self.r.random() < .3 else x for x in s)

    def lookups(self, k):
        r = self.r
        o = []
        for _ in range(k):
            p = r.random()
            n = self.known() if r.random() < .6 else self.name()
            if p < .6:
                pre = r.choice(["", "", "HTTP_", "http_", "HTTP", "Http_HTTP_"])
                o.append("L " + hexs(pre + self.case(n) + r.choice(["", "", "", "x"])))
            elif p < .8:
                o.append("U %d" % r.choice([0, 1, 5, 7, 40, 41, 2147483647, 99]))
            else:
                o.append("P " + hexs(n))
        return o

    def prefix(self):
        return self.r.choice([1, 1, 4, 8, 8, 16, 2, 128, 1, 8, 9, 24, 5])

    def evidence(self, many, pseudo):
        r = self.r
        cap = r.choice([0, 1, 2, 5, 10])
        o = ["E %d %d %d %s" % (cap, r.choice([0, 0, 1]), r.choice([2, 3, 8, 20, 100]), "a 1" if r.random() < .05 else "- 0")]
        for _ in range(r.choice([cap, cap, cap + 2, cap // 2])):
            p = r.random()
            f = self.case(self.known() if p < .5 else r.choice(FIELDS) if p < .9 else self.name())
            o.append("A %d %s %s" % (r.choice([1, 8]) if pseudo and r.random() < .8 else self.prefix(), hexs(f), hexs(r.choice(VALUES).replace("\x00", ""))))
            if r.random() < .15:
                o.append(self.iterate())
            if r.random() < .06:
                o += [self.iterate(), "R"]
        return o

    def iterate(self):
        r = self.r
        return "I %d %d" % (r.choice([0, 1, 255, 29, 8, 127, 9, 128, 24, r.randrange(256)]), r.choice([0, 0, 1, 2, 3]))

    def keys(self):
        r = self.r
        o = []
        for _ in range(4):
            pre = r.choice(["server.", "header.", "query.", "cookie.", "Header.", "headers.", "header", "query", "", "cookie..", "server", "other."])
            o.append("M " + hexs(pre + r.choice(["", "", "a", "User-Agent", ".", "header.a"])))
            o.append("N %d" % r.choice([1, 2, 4, 8, 16, 32, 64, 128, 0, 3]))
        return o

    # ---- sizes which need more than one byte
    def large_headers(self):
        """over 255 headers of the data set, more segments still, and one name which alone has over 255"""
        r = self.r
        n = r.randint(258, 264)
        k = r.randint(257, 262)
        ns = [("%d" % i)[::-1] + "h" for i in range(n)]
        for i in r.sample(range(n), 4):
            ns[i] = SEP.join(r.sample(ns, 2) + ["s%d" % i])
        # the one which is long has segments of its own, after what the others give
        ns[r.randrange(n)] = SEP.join("%dt" % i for i in range(k))
        ns[r.randrange(n)] = "L" * r.randint(256, 400) + SEP + "a"
        self.names = ns
        self.all = [x for x in ns if SEP not in x] + ["%dt" % i for i in range(k)]
        return "H 0 - 0 %d " % n + " ".join("%d %s" % (1000 + i, hexs(x)) for i, x in enumerate(ns))

    def large_lookups(self):
        r = self.r
        o = []
        for x in [self.all[-1], self.all[250], self.names[-1], r.choice(self.all), r.choice(self.names), "none"]:
            o.append("L " + hexs(self.case(x)))
        return o + ["U %d" % (1000 + i) for i in (0, 254, 255, 256, 257, len(self.names) - 1)]

    def large_evidence(self):
        r = self.r
        those = self.all[-260:] + r.sample(self.all[:200], 3)
        cap = len(those) + r.randint(0, 3)
        o = ["E %d 1 %d - 0" % (cap, r.choice([3000, 257, 300, 256]))]
        for x in those + ["more"] * 4:
            o.append("A %d %s %s" % (1, hexs(x), hexs(r.choice(["v", "", "1", "w%d" % r.randrange(99)]))))
        return o + ["I 1 0", "I 255 %d" % r.choice([256, 257, 300]), "I 8 0", "Z 1 1", "I 1 0", "Y", "Z 2 8 1", "I 1 0"]

    def large_pseudo(self):
        """over 255 pseudo headers, of which each has evidence, and values longer than a byte or two bytes can count"""
        r = self.r
        n = r.randint(257, 270)
        self.names = ["a" + SEP + ("%d" % i)[::-1] + "b" for i in range(n)]
        o = ["H 1 - 0 %d " % n + " ".join("%d %s" % (i, hexs(x)) for i, x in enumerate(self.names)), "E %d 0 20 - 0" % (n + 1), "A 1 x61 x31"]
        o += ["A 1 %s %s" % (hexs(("%d" % i)[::-1] + "b"), hexs("v%d" % i)) for i in range(n)]
        o += ["I 1 0", "Z 1 1", "I 255 0", "I 1 %d" % (n + 300), "Y", "I 255 0", "Z 2 8 1", "Y"]
        v = "y" * r.choice([255, 256, 70000, 32768])
        self.names = ["a" + SEP + "b"]
        o += ["H 0 - 0 1 1 " + hexs(self.names[0]), "E 2 0 %d - 0" % r.choice([len(v) + 3, len(v) + 2, len(v) + 1, 66000, 100000]),
              "A 8 x61 " + hexs(v), "A 8 x62 x32", "Z 1 8", "Y"]
        return o

    def alone(self):
        """constructed evidence is there, and what it was made of is not, or other evidence is"""
        r = self.r
        n = r.randint(1, 3)
        self.names = [SEP.join(x) for x in r.sample([("a", "b"), ("b", "a"), ("a", "c"), ("a", "b", "c"), ("c", "b")], n)]
        p = r.choice([1, 8])
        o = ["H 0 - 0 %d " % n + " ".join("%d %s" % (i, hexs(x)) for i, x in enumerate(self.names)), "E 3 0 20 - 0"]
        o += ["A %d %s %s" % (p, hexs(x), hexs(r.choice(["1", "v"]))) for x in "abc"[:r.choice([2, 3, 3])]] + ["Z 1 %d" % p, "I 255 0", "R"]
        for _ in range(r.randint(0, 3)):
            o += ["I %d %d" % (r.choice([p, 255, 9 - p]), r.choice([0, 1, 2, 3])), "A %d x64 x32" % r.choice([p, 9 - p])]
        return o + ["I 255 0", "I %d %d" % (p, r.choice([0, 1, 2, 3]))]

    def pseudo(self):
        r = self.r
        o = []
        for _ in range(r.randint(1, 2)):
            order = r.choice([[1], [8], [8, 1], [1, 8], [8, 16, 1], [16], [4, 8], []])
            o.append("Z %d %s" % (len(order), " ".join(map(str, order))))
            o += [self.iterate() for _ in range(r.randint(0, 2))]
            o.append("Y")
            if r.random() < .3:
                o.append(self.iterate())
        if r.random() < .1:
            o.append("z")
        return o


def mutate_headers(t):
    for e in t:
        if e["e"] == "headers" and len(e["list"]) > 1:
            e["list"][0], e["list"][1] = e["list"][1], e["list"][0]
            return t
    return None


def mutate_iterate(t):
    for e in t:
        if e["e"] == "iterate" and e["count"] > 0:
            e["seen"][-1]["value"] = e["seen"][-1]["value"] + [7]
            return t
    return None


def mutate_pseudo(t):
    for e in t:
        if e["e"] == "addpseudo" and e["items"]:
            e["items"][0]["value"] = e["items"][0]["value"][:-1] if e["items"][0]["value"] else [5]
            return t
    return None


def run(c, scripts, mutate):
    vf.sequential(c, vf.prog("evidence", "fault", ["evidence.c"]), "EvidenceTrace", scripts, mutate=mutate, par=8)
