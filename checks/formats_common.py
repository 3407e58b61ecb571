import os, shutil, tempfile
import vf
from vf import hexs


def ip4(r):
    n = r.choice([4, 4, 4, 4, 3, 2, 5, 6])
    return ".".join(r.choice(["0", "1", "255", "256", "12", "999", "007", "123456789", "99"]) for _ in range(n)) + (":" + r.choice(["80", "8080"]) if r.random() < .15 else "")


def ip6(r):
    n = r.choice([8, 8, 7, 5, 3, 2, 1, 9, 0])
    g = lambda: "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 4)))
    q = [g() for _ in range(n)]
    if r.random() < .25:
        q.append(".".join(r.choice(["0", "1", "255", "192", "300"]) for _ in range(4)))
    if r.random() < .7:
        k = r.randint(0, len(q))
        return ":".join(q[:k]) + "::" + ":".join(q[k:])
    return ":".join(q)


def junk(r):
    return "".join(r.choice("0123456789abcf.:.:x%-\xe9/") for _ in range(r.randint(0, 24)))


def ip(r):
    p = r.random()
    s = ip4(r) if p < .35 else ip6(r) if p < .75 else junk(r)
    if r.random() < .1 and s:
        k = r.randrange(len(s))
        s = s[:k] + r.choice([":", ".", "::", "f", "", " "]) + s[k + 1:]
    return s


def addresses(r):
    o = []
    for _ in range(8):
        p = r.random()
        f = "a %d" % r.randint(1, 3) if r.random() < .1 else "- 0"
        if p < .5:
            o.append("P %s %s" % (hexs(ip(r).replace(" ", "")), f if f[0] == "-" else "a 1"))
        elif p < .85:
            s = r.choice([",", ", ", " ", ","]).join(ip(r).replace(" ", "") for _ in range(r.randint(0, 4))) + r.choice(["", "", ",", " "])
            while s[:1] in (" ", ","):
                s = s[1:]
            o.append("L %s %s" % (hexs(s), f))
        else:
            t = r.choice([0, 1, 2, 1])
            a = [r.randrange(256) for _ in range(16)]
            b = [x if r.random() < .93 else r.randrange(256) for x in a]
            if t == 0:
                a, b = a[:4], b[:4]
            o.append("K %s %s %d" % (hexs(bytes(a).decode("latin1")), hexs(bytes(b).decode("latin1")), t))
    return " ".join(o)


def systematic_ip6():
    """every place and length of the zeros left out, with and without a version 4 end"""
    o = []
    g = ["1", "ab", "fff", "8001", "0", "C0dE", "00", "7"]
    for n in range(0, 9):
        for k in range(0, n + 1):
            for quad in (0, 1):
                q = g[:n] + (["1.2.3.254"] if quad else [])
                for kk in {k, len(q)}:
                    o.append("P %s - 0" % hexs(":".join(q[:kk]) + "::" + ":".join(q[kk:])))
                o.append("P %s - 0" % hexs(":".join(q)))
    return [" ".join(o[i:i + 20]) for i in range(0, len(o), 20)]


def text(r):
    ends = r.choice([["\n"], ["\r\n"], ["\n", "\r\n", "\n\n", "\r", "\n\r\n"]])
    n = r.choice([0, 1, 2, 3, 5, 9, 20])
    w = [r.choice(["a", "bc", "line", "x" * r.randint(1, 30), " ", "key: v", "\xe9\xff"]) for _ in range(n)]
    s = "".join(x + r.choice(ends) for x in w)
    if r.random() < .15:
        s = r.choice(["\n", "\r\n", "\n\n"]) + s
    if s and r.random() < .4:
        s = s.rstrip("\r\n")
    longest = max([len(x) for x in w] + [0])
    ln = longest + 1 + r.choice([0, 0, 1, 2, 5, 40])
    if r.random() < .2:
        ln = max(ln, len(s) + r.choice([0, 1]))
    return "T %s %d %d %d" % (hexs(s), ln, r.choice([0, 1, 2, n, n + 1, -1]), r.random() < .4)


def yaml(r):
    keys = ["a", "header.user-agent", "k-.x", "query.sec-ch-ua", "long" * 8, "x'y", "\xe9"]
    vals = ["", "v", "'quoted'", "'", "''", "'half", "half'", "'a'b'", "with: colon", "---", "...", "'---'", "x" * 40, "'" + "y" * 30 + "'", " two spaces ", "-", "\xff"]
    e = r.choice(["\n", "\n", "\r\n", "\n\n"])
    s = r.choice(["", "", "---" + e, e, "---" + e + "---" + e])
    for d in range(r.choice([0, 1, 2, 3, 5])):
        for _ in range(r.choice([0, 1, 2, 3, 7])):
            s += r.choice(keys) + ":" + (" " + r.choice(vals) if r.random() < .93 else "") + e
        s += r.choice(["---", "---", "---", "----", "--- name: x", "...", "---"]) + e
    if r.random() < .5:
        s += "end: last"
    if r.random() < .2:
        s = s.rstrip("\r\n")
    kl, vl = r.choice([(64, 64), (64, 64), (5, 4), (2, 2), (64, 7), (1, 1), (12, 31), (12, 32)])
    return "Y %s %d %d %d %d %d %d %s" % (hexs(s), r.choice([1, 2, 3, 7, 16, 500]), r.choice([-1, 1, 1, 2, 3, 9]), r.choice([1, 2, 3, 8, 8]), kl, vl, r.random() < .3,
                                        "o 1" if r.random() < .03 else "- 0")


def yaml_any(r):
    """bytes which needn't be yaml"""
    some = r.choice([[":", " ", "'", "\n", "a", "-", ".", "\r\n"], ["---\n", "a: b\n", "k:'v'\n", "...", "x", ": ", "''", "\n", "k", ":"],
                     ["-", "\n", "k:v\n", "k: 'v'\n", "k:  v\n", ": v\n", "- k: v\n", "--\n", "----\n", "\r", "k: 'a' \n", "k :v"]])
    s = "".join(r.choice(some) for _ in range(r.choice([1, 3, 6, 12, 30, 60])))
    a, b = r.sample([1, 2, 3, 5, 7, 16, 33, 500], 2)
    return "y %s %d %d %d %d %d %d" % (hexs(s), a, b, r.choice([-1, 1, 2, 3]), r.choice([1, 2, 3, 8]), r.choice([1, 2, 5, 64]), r.choice([1, 2, 7, 64]))


# ---- sizes which need more than one byte, or two
def large_addresses(r):
    q = [r.choice([ip4, ip6])(r).replace(" ", "") or "::1" for _ in range(r.randint(257, 290))]
    return "L %s - 0" % hexs(r.choice(",  ").join(q))


def large_text(r):
    w = ["%d" % i for i in range(r.randint(257, 300))]
    for i in r.sample(range(len(w)), 6):
        w[i] = "x" * r.choice([254, 255, 256, 257, 300, 511, 512])
    if r.random() < .5:
        w[r.randrange(len(w))] = "y" * r.choice([32767, 32768, 65535, 65536, 66000])
    longest = max(map(len, w)) + 1
    e = r.choice(["\n", "\r\n"])
    return ["T %s %d %d %d" % (hexs(e.join(w) + r.choice(["", e])), longest + r.choice([0, 1, 700]), r.choice([255, 256, 257, len(w)]), r.random() < .5)]


def large_yaml(r):
    n = r.randint(257, 270)
    s = "".join("k%d: v%d\n" % (i, i) for i in range(n)) + "---\n"
    s += "%s: %s\nb: '%s'\n---\n" % ("q" * r.choice([255, 256, 300]), "w" * r.choice([255, 256, 300, 66000]), "z" * r.choice([254, 255, 256]))
    s += "".join("a: %d\n---\n" % i for i in range(n)) + "z: 1"
    longest = max(map(len, s.split("\n"))) + 1
    return ["Y %s %d %d %d %d %d 0 - 0" % (hexs(s), longest, r.choice([-1, 255, 256, 257, n + 9]), size, kl, vl)
            for size, kl, vl in ((n + 3, 400, longest), (r.choice([256, 255, 257]), r.choice([255, 256, 257, 300]), r.choice([254, 255, 256, 257, 300])))]


def large_strings(r):
    o = []
    for _ in range(3):
        a = "".join(r.choice("abAB") for _ in range(r.randint(256, 700)))
        b = a[:-r.randint(1, 3)] + r.choice(["", "z", "a"])
        o.append("S %s %s %d" % (hexs(a), hexs(b), r.choice([255, 256, 257, len(b)])))
        o.append("S %s %s %d" % (hexs(a), hexs(a[r.choice([255, 256, 250]):].swapcase()), 9))
        o.append("S %s %s %d" % (hexs(a), hexs(a.swapcase()), len(a)))
    return " ".join(o)


def strings(r):
    o = []
    for _ in range(10):
        any = "aAbBcC-_zZ\x01\xe9\xc9\x7f@[`{\xff\x80" if r.random() < .6 else "".join(chr(r.choice([r.randint(1, 255), r.randint(32, 126)])) for _ in range(2))
        a = "".join(r.choice(any) for _ in range(r.choice([0, 1, 2, 3, 6, 12])))
        p = r.random()
        if p < .35:
            b = "".join(x.swapcase() if ord(x) < 128 and r.random() < .4 else x for x in a)
            if r.random() < .5:
                b = b[:r.randint(0, len(b))]
        elif p < .7 and a:
            i = r.randrange(len(a)); j = r.randint(i, len(a))
            b = "".join(x.swapcase() if ord(x) < 128 and r.random() < .4 else x for x in a[i:j]) + ("" if r.random() < .7 else r.choice("ab\xe9"))
        else:
            b = "".join(r.choice("aAbBzZ\xe9\xff" if r.random() < .5 else any) for _ in range(r.choice([0, 1, 2, 4])))
        o.append("S %s %s %d" % (hexs(a), hexs(b), r.choice([0, 1, 2, 5, 20])))
    return " ".join(o)


def floats(r):
    o = []
    for _ in range(25):
        m = r.choice([0, 1, 2, 0x400000, 0x7fffff, 0x7ffffe, r.randrange(1 << 23), 1 << r.randrange(23), (1 << 23) - (1 << r.randrange(23))])
        x = r.choice([0, 0, 1, 2, 126, 127, 128, 254, 255, r.randrange(256)])
        v = (r.randrange(2) << 31) | (x << 23) | m
        w = v if r.random() < .4 else v ^ (1 << r.randrange(32))
        while r.random() < .3:
            w ^= r.choice([1 << r.randrange(32), 255 << 8 * r.randrange(4), r.randrange(1 << 32)])
        if r.random() < .05:
            w = int.from_bytes(v.to_bytes(4, "little"), "big")
        o.append("F %d %d" % (v, w))
    return " ".join(o)


def all_exponents():
    o = []
    for x in range(256):
        for m in (0, 1, 0x2aaaaa, 0x555555, 0x7fffff):
            for s in (0, 1):
                v = (s << 31) | (x << 23) | m
                o.append("F %d %d" % (v, v ^ (1 << (x % 32))))
    return [" ".join(o[i:i + 64]) for i in range(0, len(o), 64)]


def run(c, scripts, mutate):
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        vf.sequential(c, vf.prog("formats", "fault", ["formats.c"]), "FormatsTrace", scripts, mutate=mutate, args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bump(*path, when=lambda e: True):
    """a mutation of the first event which has the path"""
    def f(t):
        for e in filter(when, t):
            x, ok = e, True
            for p in path[:-1]:
                try:
                    x = x[p]
                except (KeyError, IndexError, TypeError):
                    ok = False
                    break
            if ok:
                try:
                    x[path[-1]] = x[path[-1]] ^ 1 if x[path[-1]] >= 0 else x[path[-1]] + 1
                    return t
                except (KeyError, IndexError, TypeError):
                    pass
        return None
    return f
