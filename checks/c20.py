import properties_common as k
import vf
from vf import hexs


def steps(c):
    """every transition of the override values, at the end of a shortest history"""
    r, out = c.rng, []
    for h in vf.transitions(c, "GenOverrideSteps", None if c.quick else "GenOverrideStepsBig.cfg"):
        g = k.Gen(r)
        g.names = r.sample(k.WORDS[:6], 5)
        place = r.sample(range(5), 5)
        s = ["C 5 %s 0 n - 0" % " ".join(map(hexs, g.names)), "P 1 1 - 0", "V %d - 0" % h[0][0]]
        n = 0
        for o in h[1:]:
            n += 1
            if o[0] == "R":
                s.append("R")
                continue
            v = hexs((chr(97 + n % 26)) * (r.choice([1, 2]) if o[2] == 1 else r.choice([30, 64, 300])))
            i = place[o[1]]
            if o[3] or r.random() < .5:
                s.append("A %d %s %s" % (i, v, "a 1" if o[3] else "- 0"))
            else:
                # the name with the index is the one in the order of the names
                s.append("E 0 1 %d %s %s" % (r.choice([8, 16]), hexs(g.case(sorted(g.names, key=str.lower)[i])), v))
        s += ["H %d %d" % (i, r.choice([1, 2])) for i in range(5)]
        out.append(" ".join(s))
    return out


def check(c):
    c.rule = ("available properties, the subset which can be overridden, with or without the prefix, and histories of adds, extractions from evidence, reads and resets of "
              "override values, with failing allocations; ProfileIds evidence of any shape; distinct = recorded traces which differ")
    vf.models(c, "MCProperties")
    s = []
    for _ in range(6000 if c.quick else 60000):
        g = k.Gen(c.rng)
        o = [g.create(False)] + g.overrides(True)
        if c.rng.random() < .3:
            o += g.overrides(True)
        s.append(" ".join(o + g.profiles()))
    for m in "n" if c.quick else "nan" * 2:
        g = k.Gen(c.rng)
        s.append(" ".join(g.large(m) + g.large_overrides()))
    s += steps(c)
    k.run(c, s, k.mutate_values)
