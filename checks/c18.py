import evidence_common as k
import vf


def check(c):
    c.rule = "histories of evidence add, iterate with every mask and early stop, and prefix lookups; distinct = recorded traces which differ"
    vf.models(c, "MCEvidence")
    g = k.Gen(c.rng)
    s = []
    for _ in range(6000 if c.quick else 60000):
        o = []
        if c.rng.random() < .3:
            o += [g.headers(False)]
        o += g.evidence(True, False) + [g.iterate() for _ in range(6)] + g.keys()
        if c.rng.random() < .3:
            o += g.pseudo()
        if c.rng.random() < .2:
            o += g.alone()
        s.append(" ".join(o))
    for _ in range(1 if c.quick else 8):
        s.append(" ".join([g.large_headers()] + g.large_evidence()))
    k.run(c, s, k.mutate_iterate)
