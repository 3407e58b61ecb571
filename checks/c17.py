import evidence_common as k
import vf


def check(c):
    c.rule = ("data set header names of every shape (segments, empty segments, duplicates in other cases), lookups with and without the HTTP_ "
              "prefix, failing allocations; distinct = recorded traces which differ")
    vf.models(c, "MCEvidence")
    g = k.Gen(c.rng)
    k.run(c, [" ".join([g.headers(True)] + g.lookups(8) + ([g.headers(True)] + g.lookups(4) if c.rng.random() < .2 else []))
              for _ in range(6000 if c.quick else 60000)] +
          [" ".join([g.large_headers()] + g.large_lookups()) for _ in range(1 if c.quick else 8)], k.mutate_headers)
