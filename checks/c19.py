import evidence_common as k
import vf


def check(c):
    c.rule = ("evidence with all, some or none of the segments of the pseudo headers, in several categories, with every order of precedence and buffers which are "
              "too small; distinct = recorded traces which differ")
    vf.models(c, "MCEvidence", [("MCEvidenceNone", "Invariant NeverPseudo is violated")])
    g = k.Gen(c.rng)
    k.run(c, [" ".join([g.headers(False)] + g.evidence(True, True) + g.pseudo()) for _ in range(8000 if c.quick else 80000)] +
          [" ".join(g.large_pseudo()) for _ in range(2 if c.quick else 12)] +
          [" ".join([g.large_headers()] + g.large_evidence()) for _ in range(1 if c.quick else 8)], k.mutate_pseudo)
