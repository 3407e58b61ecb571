import vf
from vf import hexs

WORDS = ["IsMobile", "ScreenPixelsWidth", "ScreenPixelsWidthJavaScript", "ScreenPixelsHeight", "SetHeaderBrowserAccept-CH", "a", "b", "ab", "Set", "SetHeade",
         "SetHeader", "isSetHeader", "JavascriptHardwareProfile", "PlatformName", "platformnames", "x-y", "Z", "51D_a", "\xe9t", "\xc9tz", "a_", "aZ", "profileids", "_"]
VALUES = ["", "1", "true", "a b|c", "x" * 60, "9", "\xff\xfe", "some longer value than before"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.names = []

    def case(self, s):
        return "".join((x.upper() if x.islower() else x.lower()) if ord(x) < 128 and self.r.random() < .3 else x for x in s)

    def name(self):
        r = self.r
        return r.choice(WORDS) if r.random() < .8 else "".join(r.choice("abAB_-\xe9\x80z") for _ in range(r.randint(1, 6)))

    def wanted(self):
        r = self.r
        if self.names and r.random() < .75:
            n = r.choice(self.names)
            return self.case(n) if r.random() < .9 else (n + "x" if r.random() < .5 else n[:-1] or "q")
        return self.name()

    def create(self, faults, mode=None):
        r = self.r
        old = list(self.names)
        if not old or r.random() < .7:
            ns, seen = [], set()
            for _ in range(r.choice([0, 1, 2, 4, 8, 14])):
                n = self.name()
                k = "".join(x.lower() if ord(x) < 128 else x for x in n)
                if k not in seen and not any(s in n for s in "|, "):
                    seen.add(k)
                    ns.append(n)
            if old and r.random() < .6:
                keep = [n for n in old if r.random() < .7]
                low = lambda n: "".join(x.lower() if ord(x) < 128 else x for x in n)
                ks = set(map(low, keep))
                ns = keep + [n for n in ns if low(n) not in ks]
                r.shuffle(ns)
            self.names = ns
        mode = mode or r.choice("asnade" if old else "asnad")
        s = "C %d %s %d %s" % (len(self.names), " ".join(hexs(n) for n in self.names), r.randint(0, 5), mode)
        if mode == "a":
            k = r.choice([0, 1, 3, 6, 12])
            s += " %d %s" % (k, " ".join(hexs(self.wanted()) for _ in range(k)))
        elif mode == "s":
            k = r.choice([0, 1, 2, 5, 12])
            t = r.choice(["", ",", "|", " "]) if r.random() < .2 else ""
            for i in range(k):
                t += ("" if not i else r.choice([",", "|", " ", ", ", "||"])) + self.wanted()
            if r.random() < .2:
                t += r.choice([",", "|", " "])
            s += " " + hexs(t)
        return s + (" a %d" % r.randint(1, 5) if faults and r.random() < .2 else " - 0")

    def lookups(self, k):
        r = self.r
        o = []
        for _ in range(k):
            p = r.random()
            if p < .6:
                o.append("B " + hexs(self.wanted()))
            elif p < .9:
                o.append("I %d" % r.choice([-1, 0, 1, 2, 3, 5, 9, 2147483647, -2147483648]))
            else:
                o.append("S")
        return o

    def pairs(self, ids):
        r = self.r
        n = r.choice([0, 1, 2, 4, 8])
        o = "%d" % n
        for _ in range(n):
            f = self.wanted()
            if ids and r.random() < .7:
                f = self.case("ProfileIds")
            if r.random() < .4:
                f = r.choice(["51D_", "51d_", "51D_51D_", "51D"]) + f
            v = r.choice(VALUES)
            if ids and r.random() < .8:
                v = "".join(r.choice(["12", "|", "-", "0", "a", "2147483647", "2147483648", "4294967297", "99999999999999999999", "-5", ".", "7", "\xe9", ","]) for _ in range(r.randint(0, 7)))
            o += " %d %s %s" % (r.choice([8, 16, 8, 16, 1, 4, 24, 9, 128]), hexs(f), hexs(v))
        return o

    def overrides(self, faults):
        r = self.r
        o = ["P %d %s - 0" % (r.random() < .6, "".join(r.choice("1101") for _ in range(7)))]
        if r.random() < .05:
            o = ["P 1 000 - 0"]
        if faults and r.random() < .05:
            o = ["P 1 1 a 1"]
        o.append("V %d %s" % (r.choice([0, 1, 2, 3, 6, 14]), "a 1" if faults and r.random() < .05 else "- 0"))
        for _ in range(r.randint(1, 8)):
            p = r.random()
            if p < .35:
                o.append("E %d %s" % (0 if r.random() < .9 else r.choice([1, 2]), self.pairs(False)))
            elif p < .6:
                o.append("A %d %s %s" % (r.choice([-1, 0, 1, 2, 3, 7]), hexs(r.choice(VALUES)), "a 1" if faults and r.random() < .3 else "- 0"))
            elif p < .85:
                o.append("H %d %d" % (r.randint(0, 4), r.choice([0, 1, 1, 2])))
            elif p < .92:
                o.append("R")
            else:
                o.append("O %d" % r.randint(0, 5))
        o += ["O %d" % i for i in range(4)]
        return o

    # ---- sizes which need more than one byte
    def large(self, mode):
        """over 255 properties, of which all or over 255 are wanted"""
        r = self.r
        n = r.randint(259, 266)
        self.names = [("%d" % i)[::-1] + r.choice("pP") for i in range(n)]
        s = "C %d %s %d %s" % (n, " ".join(hexs(x) for x in self.names), r.randint(0, 5), mode)
        w = [self.case(x) for x in r.sample(self.names, 257) + ["nowhere"]]
        if mode == "a":
            s += " %d %s" % (len(w), " ".join(map(hexs, w)))
        elif mode == "s":
            s += " " + hexs(r.choice(",| ").join(w))
        o = [s + " - 0"] + ["B " + hexs(self.case(r.choice(self.names))) for _ in range(4)] + ["B " + hexs(x) for x in (w[0], w[-2], w[-1])]
        return o + ["I %d" % i for i in (0, 254, 255, 256, 257, n - 1, n)] + ["S"]

    def large_overrides(self):
        r = self.r
        n = len(self.names)
        o = ["P 1 %s - 0" % r.choice(["1", "1" * 255 + "0"]), "V %d - 0" % (n + 2)]
        f = r.sample(self.names, n) + ["zz"] * 3
        o.append("E 0 %d %s" % (len(f), " ".join("8 %s %s" % (hexs(self.case(x)), hexs(r.choice(["1", "v", "w%d" % i]))) for i, x in enumerate(f))))
        o += ["H %d 1" % i for i in (0, 254, 255, 256, 257, n)]
        o += ["A 3 %s - 0" % hexs("y" * r.choice([255, 256, 300, 32766])), "H 3 1", "A 256 x31 - 0", "H 256 2", "R", "H 0 1"]
        ids = [r.choice(["7", "12", "99999999999", "65536", "0"]) for _ in range(r.randint(256, 280))]
        return o + ["O 256", "Q 1 8 %s %s" % (hexs("ProfileIds"), hexs("|".join(ids))),
                    "Q 300 " + " ".join("8 %s %s" % (hexs("ProfileIds" if r.random() < .9 else "x"), hexs("%d" % i)) for i in range(300))]

    def profiles(self):
        return ["Q " + self.pairs(True) for _ in range(2)]


def mutate_create(t):
    for e in t:
        if e["e"] == "create" and len(e["items"]) > 1:
            a, b = e["items"][0], e["items"][1]
            e["items"][0], e["items"][1] = b, a
            return t
    return None


def mutate_values(t):
    for e in t:
        if e["e"] in ("extract", "add") and e["values"]:
            e["values"][-1]["value"] = e["values"][-1]["value"] + [65]
            return t
    return None


def run(c, scripts, mutate):
    vf.sequential(c, vf.prog("properties", "fault", ["properties.c"]), "PropertiesTrace", scripts, mutate=mutate, par=8)
