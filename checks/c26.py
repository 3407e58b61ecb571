import formats_common as k
import vf


def check(c):
    c.rule = "pairs of strings of any bytes which differ in case, are prefixes or parts of each other, or not; distinct = recorded traces which differ"
    vf.models(c, "MCText")
    k.run(c, [k.strings(c.rng) for _ in range(3000 if c.quick else 60000)] + [k.large_strings(c.rng) for _ in range(8 if c.quick else 60)], k.bump("cmp"))
