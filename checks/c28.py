import formats_common as k
import wrappers_common as w
from vf import hexs


def check(c):
    c.rule = "the message of every status with names of files of any length, and failing allocations, and those of the C++ exceptions; distinct = recorded traces which differ"
    r = c.rng
    o = []
    for _ in range(300 if c.quick else 3000):
        q = []
        for st in r.sample(STATUSES, 12):
            name = "".join(r.choice("abc/.%sn d\xe9") for _ in range(r.choice([0, 1, 2, 10, 200, 200, 400 + r.randint(0, 300)] + [r.choice([3000, 4090, 5000, 70000])] * (r.random() < .02))))
            q.append("M %d %s %s %s %s %d" % (st, "-" if r.random() < .1 else hexs(name), "a %d" % r.randint(1, 6) if r.random() < .15 else "- 0", hexs(word(r)), hexs(word(r)),
                                              r.choice([0, 1, 123456, 2147483647, -2147483648, r.randint(0, 99999)])))
        if r.random() < .5:
            q.append("X %d %s %s %d %d" % (r.choice(STATUSES), hexs(word(r)), hexs(word(r)), r.randint(0, 99999), r.choice([0, 0, 0, 1, 2, 3])))
        o.append(" ".join(q))
    o.append(" ".join("M %d %s - 0 %s %s 1234567" % (s, hexs("file.dat"), hexs("file.c"), hexs("function")) for s in STATUSES))
    k.run(c, o, k.bump("with", 3, when=lambda e: e["e"] == "message" and not e["fired"] and e["with"][:1] != e["name"][:1] and not e["noname"]))
    w.run(c, [" ".join(w.exceptions(r)) for _ in range(100 if c.quick else 2000)], w.bump("status", "r"))


def word(r):
    return "".join(r.choice("abc/.%sn d") for _ in range(r.choice([0, 1, 2, 12, 12, 20, 40, 150])))


# those of the header, and codes which have no text
STATUSES = list(range(0, 36)) + [36, 99, 345, 12345, 999999]
