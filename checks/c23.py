import wrappers_common as k
import vf


def check(c):
    c.rule = "results of a few properties with any number of values of any text, or a reason for none, read as every type by index and by name in each form; distinct = recorded traces which differ"
    vf.models(c, "MCWrappers")
    k.run(c, [k.results(c.rng) for _ in range(3000 if c.quick else 60000)], k.bump("get", "value", lambda e: e["has"] == 1))
