import wrappers_common as k
import vf
from vf import hexs


def steps(c):
    """every transition of the pairs of evidence, at the end of a shortest history"""
    r, out = c.rng, []
    n = 3 if c.quick else 5
    for h in vf.transitions(c, "GenPairsSteps", None if c.quick else "GenPairsStepsBig.cfg"):
        keys = sorted(r.sample(k.KEYS, n), key=lambda x: x.encode("latin-1"))
        s = ["e+ %d" % r.choice([-1, -1, -1, 8])]
        for i, o in enumerate(h):
            if o[0] == "=":
                s.append("e= %s %s" % (hexs(keys[o[1] - 1]), hexs(chr(97 + i % 26) * (r.choice([1, 2, 15]) if o[2] == 1 else r.choice([16, 50, 200])))))
            elif o[0] == "x":
                s.append("ex " + hexs(keys[o[1] - 1]))
            elif o[0] == "r":
                s.append("er %s %s" % (hexs(keys[o[1] - 1]), hexs(keys[o[2] - 1])))
            else:
                s.append("eg 255" if o[0] == "g" else "e" + o[0])
        out.append(" ".join(s + ["eg 255"]))
    return out


def check(c):
    c.rule = "histories of evidence, required properties, keys, configuration, addresses, strings and meta data through the C++ classes; distinct = recorded traces which differ"
    vf.models(c, "MCWrappers")
    r = c.rng
    o = []
    for _ in range(1500 if c.quick else 30000):
        q = k.evidence(r)
        q += k.required(r)
        if r.random() < .4:
            q += k.keys(r)
        if r.random() < .4:
            q += k.small(r)
        o.append(" ".join(q))
    o += steps(c)
    k.run(c, o, k.bump("given", "count"))
