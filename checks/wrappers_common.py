import os, shutil, tempfile
import vf
from vf import hexs

NAMES = ["Alpha", "beta", "Gamma.Two", "delta", "IsMobile", "Width", "Javascript", "zz", "SetHeaderAccept", "a b", "\xe9t\xe9", "x|y", "HTTP_X", "51D_q"]
KEYS = ["header.a", "header.User-Agent", "query.a", "query.User-Agent", "cookie.51D_x", "server.ip", "Header.a", "header.", "header", "query", "query.q", "cookie.", "cookie.c", "server.x", "other.a", "", "a.header.a", "headers.a", "query.header.a", "\xffa", "HEADER.b"]


def case(r, s):
    return "".join(x.upper() if r.random() < .25 else x.lower() if r.random() < .2 else x for x in s)


def number(r):
    s = r.choice(["", "", "", "-", "+", " ", "\t\n", "--", "- ", " -", " +"])
    s += "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 1, 2, 3])))
    if r.random() < .5:
        s += "." + "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 2, 5])))
    return s + r.choice(["", "", "", " ", "x", ".1", ",5", "|", "%", "e1", "E2", "e+1", "e-1", "e", "e+", "e1.5", "e-0", "e-1 "])


def value(r):
    p = r.random()
    if p < .35:
        return number(r)
    if p < .6:
        return r.choice(["True", "False", "true", "TRUE", "True ", " True", "Tru", "Truee", "", "1", "0", "N/A"])
    return r.choice(["", "|", "a|b", "Mozilla", "\xe9", "word", "-", "."])


def results(r):
    n = r.choice([0, 1, 3, 6])
    names = r.sample(NAMES, n)
    if any(a != b and a.lower() == b.lower() for a in names for b in names):
        names = names[:1]
    o = ["M %d" % r.choice([0, 1, 2]), "A %d %s" % (len(names), " ".join(map(hexs, names)))]
    n = len(names)
    for i in range(n + 1):
        p = r.random()
        if p < .55:
            k = r.choice([0, 1, 1, 1, 2, 3])
            o.append("V %d %d %s" % (i, k, " ".join(hexs(value(r)) for _ in range(k))))
        elif p < .9:
            o.append("V %d -%d" % (i, r.choice([0, 1, 2, 3, 4, 5, 6, 7])))
    for _ in range(r.randint(3, 10)):
        p = r.random()
        if p < .1:
            o.append("N")
        elif p < .25:
            o.append("H " + hexs(case(r, r.choice(NAMES)) + r.choice(["", "", "", "x"])))
        elif p < .55:
            o.append("G %s i %d" % (r.choice("LSBID"), r.choice([-2, n, n + 5] + list(range(n)) * 3)))
        else:
            o.append("G %s %s %s" % (r.choice("LSBID"), r.choice("csp"), hexs(case(r, r.choice(names or NAMES)) + r.choice([""] * 8 + ["x"]))))
        if r.random() < .1:
            o.append("M %d" % r.choice([0, 1, 2]))
        if n and r.random() < .15:
            k = r.choice([0, 1, 2])
            o.append("V %d %d %s" % (r.randrange(n), k, " ".join(hexs(value(r)) for _ in range(k))))
    if r.random() < .2:
        o += exceptions(r)
    if r.random() < .3:
        o += ["Z %d %d %d %d %s" % (r.choice([0, 1, 1, 2]), r.randrange(16), r.choice([0, 1, 1, 2]), r.choice([0, 0, 1, r.randrange(100)]), hexs(r.choice(["", "", "a", "text"])))]
    return " ".join(o)


def exceptions(r):
    return ["X %d %s" % (s, "-" if r.random() < .3 else hexs(r.choice(["f", "a/b.dat", "", "%s"]))) for s in r.sample(range(36), 3)] + ["Xf %d" % r.randrange(36)]


def evidence(r):
    o = ["e+ %d" % r.choice([-1, -1, 1, 8, 9, 16, 29, 0])]
    few = r.sample(KEYS, r.choice([2, 4, len(KEYS)]))
    for _ in range(r.randint(2, 16)):
        p = r.random()
        k = r.choice(few) if r.random() < .9 else "".join(r.choice("headrquy.") for _ in range(9))
        if p < .5:
            o.append("e= %s %s" % (hexs(k), hexs(r.choice(["", "v", "1.2.3.4", "Mozilla/5.0", "\xe9", "a" * 50, "b" * 200]))))
        elif p < .6:
            o.append("ex " + hexs(k))
        elif p < .65:
            o.append("er %s %s" % (hexs(k), hexs(r.choice(KEYS))))
        elif p < .7:
            o.append("ec")
        elif p < .75:
            o.append(r.choice(["ey", "ea", "es"]))
        else:
            o.append("eg %d" % r.choice([1, 4, 8, 16, 29, 255, 9, 0]))
    o.append("eg 255")
    return o


def required(r):
    sep = lambda: r.choice([",", ",", ",", "|", " ", ", ", ",,", "|,"])
    def names(k):
        return [case(r, r.choice(NAMES)) if r.random() < .85 else r.choice(["nope", "", "Alph", "Alphaa"]) for _ in range(k)]
    q = names(r.choice([0, 1, 2, 4]))
    p = r.random()
    if p < .35:
        o = ["R %s %d %s" % (r.choice("vw"), len(q), " ".join(map(hexs, q)))]
    elif p < .4:
        o = ["R n"]
    else:
        s = "".join(x + sep() for x in q)
        if s and r.random() < .7:
            s = s.rstrip(", |")
        o = ["R %s %s" % (r.choice("csp"), hexs((r.choice(["", "", ",", " "])) + s))]
    for _ in range(r.randint(1, 5)):
        p = r.random()
        if p < .5:
            a = [case(r, x) for x in r.sample(NAMES, 2)] + q[:2]
            o.append("Rq %d %s" % (len(a), " ".join(map(hexs, a))))
        elif p < .7:
            o.append(r.choice(["Ry", "Ra", "Rs"]))
        elif p < .78:
            a = [case(r, x) for x in r.sample(NAMES, r.choice([1, 2, 5]))]
            a = [x for i, x in enumerate(a) if x.lower() not in [y.lower() for y in a[:i]]]
            o.append("Re %d %s" % (len(a), " ".join(map(hexs, a))))
        else:
            a = r.sample([x for x in NAMES if not set(x) & set(" |,")], r.choice([1, 3, 7]))
            o.append("Rc %d %s" % (len(a), " ".join(map(hexs, a))))
    return o + ["Rd"]


def keys(r):
    h = r.sample(["User-Agent", "a", "Sec-CH-UA", "Sec-CH-UA\x1fa", "HTTP_X", "b\x1fc", "X-Op", "\x1f", "Sec\x1f", "\x1fq", "\x1f\x1fw\x1f", "accept", "Javascript"], r.choice([0, 1, 3, 6]))
    o = r.sample(["Javascript", "Alpha", "User-Agent", "51D_q", "zz", "HTTP_X"], r.choice([1, 2, 4]))
    return ["K %d %d %d %s %d %s" % (r.random() < .5, r.random() < .5, len(h), " ".join(map(hexs, h)), len(o), " ".join(map(hexs, o))),
            "U %s %s" % (hexs(r.choice(["", "K", "KEY", "A&B"])), hexs(r.choice(["", "", "http://x/y?z", " "])))]


def small(r):
    import formats_common as k
    o = []
    for _ in range(3):
        o.append("I " + hexs(k.ip(r).replace("\x00", "")))
    t = r.choice([0, 1, 1, 2])
    o.append("Ib %d %s %d" % (t, hexs("".join(chr(r.randrange(256)) for _ in range(16))), r.choice([0, 3, 4, 5, 15, 16, 17, 40])))
    o.append("C %d %d %d" % (r.choice([0, 1, 2147483647]), r.choice([0, 1, 65535]), r.choice([0, 5, 1000000])))
    for _ in range(r.randint(1, 3)):
        if r.random() < .5:
            o.append("B %d %d %d" % tuple(r.randrange(2) for _ in range(3)))
        else:
            d = [r.choice(["/tmp/x", "", "dir with space", "a" * 80]) for _ in range(r.choice([0, 1, 3]))]
            o.append("Bt %d %s" % (len(d), " ".join(map(hexs, d))))
    if r.random() < .3:
        o += exceptions(r)
    v = [r.choice(["", "a", "text", "\xe9" * 3, "x" * 300]) for _ in range(r.choice([1, 2, 5]))]
    m = [r.choice([0, len(v) - 1, len(v), 1000]) for _ in range(4)]
    o.append("S %d %s %d %s" % (len(v), " ".join(map(hexs, v)), len(m), " ".join(map(str, m))))
    for _ in range(2):
        o.append("W " + " ".join(hexs(r.choice(["", "a", "A", "ab", "b", "\xff"])) for _ in range(4)) + " %d" % r.choice([0, 1, 63, 255, 256, 99999, r.randrange(64), r.randrange(100000)]))
    return o


def run(c, scripts, mutate):
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        vf.sequential(c, vf.prog("wrappers", "asan", ["wrappers.cpp", "wrappers_c.c"], cxx=True, extra=("-fpermissive", "-w")),
                      "WrappersTrace", scripts, mutate=mutate, par=8, args=[d])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bump(ev, field, when=lambda e: True):
    def m(t):
        for e in t:
            if e["e"] == ev and when(e):
                e[field] = e[field] + [7] if isinstance(e[field], list) else e[field] + 1
                return t
        return None
    return m
