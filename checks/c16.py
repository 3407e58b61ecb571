import properties_common as k
import vf
from vf import hexs


def check(c):
    c.rule = ("data sets of properties, required as array, string, existing list or all, with unknown and repeated names in any case, then lookups; failing allocations; "
              "distinct = recorded traces which differ")
    vf.models(c, "MCProperties")
    s = []
    for _ in range(6000 if c.quick else 60000):
        g = k.Gen(c.rng)
        o = [g.create(True)] + g.lookups(8)
        for _ in range(c.rng.choice([0, 0, 1, 2])):
            o += [g.create(True)] + g.lookups(4)
        s.append(" ".join(o + (["F"] if c.rng.random() < .5 else [])))
    for m in "as" if c.quick else "asnade" * 2:
        s.append(" ".join(k.Gen(c.rng).large(m)))
    g = k.Gen(c.rng)
    o = g.large("n")
    s.append(" ".join(o + ["C %d %s 2 e - 0" % (len(g.names), " ".join(map(hexs, g.names)))] + o[1:]))
    k.run(c, s, k.mutate_create)
