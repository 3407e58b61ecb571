import shutil, tempfile
import vf

MASKS = [255, 255, 127, 15, 7, 240, 85, 170, 1, 128, 0]


def content(r, n, bad=.12):
    return "%d %d %d %d %d %d" % (n, r.choice(MASKS), r.randrange(2), r.choice([0, 1, 5, 9]), r.choice([0, 1, 3, 6]),
                                  r.choice([1, 2, 3, 4, 5]) if r.random() < bad else r.choice([0, 0, 6]))


def want(r):
    return r.choice([-1, -1, -1, 255, 15, 7, 3, 1, 129, 256 + 3, 256, 64])


def script(r, faults=True):
    flags = r.choice([0, 0, 1, 1, 1, 3, 3, 3, 4, 5, 7]) + r.choice([0, 0, 8]) + r.choice([0, 0, 16]) + r.choice([0, 0, 32])
    kinds = "".join(r.choice("0123") for _ in range(4)) if r.random() < .7 else r.choice("0123") * 4
    # to load part of a collection while the header is read takes a second file handle
    head = "%d %d %s" % (flags, r.choice([2, 2, 3, 4] if set(kinds) & set("23") else [1, 1, 2, 4]), kinds)
    n = [0]

    def data():
        if r.random() < .8:
            n[0] += 1
        return content(r, max(1, n[0]))

    def fault(kinds="aaaaaoorRstwWcmd", p=.3):
        if not faults or r.random() > p:
            return ""
        return "F %s %d " % (r.choice(kinds), r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15, 20, 25, 30]))
    ops = ["w %d %s" % (m, data()) for m in range(r.choice([1, 2]))]
    for k in range(r.choice([8, 16, 30, 50])):
        p = r.random()
        if k == 0 or p < .05:
            ops.append(fault() + ("I %d %d" % (r.randrange(2) if p < .3 else 0, want(r)) if r.random() < .75 else "J %s %d" % (data(), want(r))))
        elif p < .17:
            ops.append("w %d %s" % (r.randrange(2), data()))
        elif p < .19:
            ops.append("d %d" % r.randrange(2))
        elif p < .44:
            ops.append(fault() + ("R %d" % r.choice([0, 0, 0, 1]) if r.random() < .7 else "M %s" % data()))
        elif p < .62:
            ops.append("g %d" % r.randrange(4))
        elif p < .78:
            ops.append(fault("arsR", .15) + "q %d" % r.randrange(4))
        elif p < .96:
            ops.append(fault("m", .1) + "l %d" % r.randrange(4))
        else:
            ops.append(fault("aam", .3) + "X")
    return head + " " + " ".join(ops)


def systematic(r, quick):
    """each allocation and file operation of a reload and of a start fails once"""
    out = []
    # files which are the same, or only in their headers
    for flags in (3, 7, 11, 15, 19, 27):
        for a, b in ((0, 6), (6, 0), (0, 0)):
            for m in (0, 1):
                out.append("%d 2 0321 w 0 1 127 0 5 6 %d w 1 1 127 0 5 6 %d I 0 -1 g 0 w 0 1 127 0 5 6 %d R %d g 1 q 0 q 1 w 1 2 127 0 5 6 %d R %d g 2 l 0 q 2 l 1 R 0 g 1 q 1 q 2"
                           % (flags, a, b, b, m, a, 1 - m))
    for flags in ([0, 3, 4, 1, 32] if quick else [0, 1, 3, 4, 5, 7, 9, 17, 19, 32, 37, 59]):
        for kinds in (["0000", "1111", "2323"] if quick else ["0000", "1111", "2222", "3333", "0123", "3210"]):
            h = "%d %d %s w 0 1 127 0 5 6 0 " % (flags, 1 if kinds == "0000" else 2, kinds)
            for f, m in [("a", 45), ("o", 8), ("r", 60), ("s", 45), ("t", 8), ("w", 6), ("c", 3), ("d", 3), ("m", 2), ("R", 12), ("W", 3)]:
                for n in range(1, m + 1):
                    if flags & 4 and f in "rRs" and n > 8:
                        continue
                    if quick and n > 12 and n % 3 != r.randrange(3):
                        continue
                    out.append(h + "F %s %d I 0 -1 I 0 -1 g 0 q 0 w 0 2 15 0 5 3 0 F %s %d R 0 g 1 q 1 l 1 q 0 l 0 R 0 g 1 q 1" % (f, n, f, n))
                    if f == "a":
                        out.append(h + "F a %d J 1 127 0 5 6 0 -1 J 1 127 0 5 6 0 7 g 0 q 0 F a %d M 2 15 0 5 3 0 g 1 q 1 l 1 q 0 l 0" % (n, n))
    return out


def steps(c):
    """every transition of the life of a data set, at the end of a shortest history"""
    r, out = c.rng, []
    all_ = [h for h in vf.transitions(c, "MCDataSet", "GenDataSetSteps.cfg", keep=lambda h: h[-1][0] not in "qwd") if len(h) > 2]
    if c.quick:
        all_ = r.sample(all_, 1500)
    for h in all_:
        temp, reuse, mem, compare = h[0]
        kinds = "".join(r.choice("0123") for _ in range(4))
        flags = temp + 2 * reuse + 4 * mem + 8 * compare + (r.choice([0, 16]) if temp else 0) + r.choice([0, 32])
        rest = "%d %d" % (r.choice([0, 1, 5]), r.choice([0, 1, 3]))
        bad = r.choice([1, 4, 5])
        # 3 is broken, 5 has the header of 1
        data = {1: "1 3 0 %s 0" % rest, 2: "2 6 1 %s 0" % rest, 3: "3 3 0 %s %d" % (rest, bad), 4: "4 1 0 %s 0" % rest, 5: "1 3 0 %s 6" % rest}
        s = []
        for o in h[1:]:
            k = o[0]
            s.append({"w": lambda: "w 0 " + data[o[1]], "d": lambda: "d 0", "I": lambda: "I 0 -1", "J": lambda: "J %s -1" % data[o[1]], "R": lambda: "R 0",
                      "M": lambda: "M " + data[o[1]], "X": lambda: "X"}.get(k, lambda: "%s %d" % (k, o[1]))())
        s += ["q 0", "q 1"]
        out.append("%d %d %s %s" % (flags, 2 if set(kinds) & set("23") else 1, kinds, " ".join(s)))
    return out


def mutate(t):
    for e in reversed(t):
        if e["e"] == "use" and e["good"] >= 0:
            e["id"] += 1
            return t
        if e["e"] in ("release", "reload") and e["freed"]:
            e["freed"] = []
            return t
    return None
