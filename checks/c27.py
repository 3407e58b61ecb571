import formats_common as k
import vf


def check(c):
    c.rule = "floats: every exponent and sign with several mantissas, and random ones; distinct = recorded traces which differ"
    vf.models(c, "MCFloat")
    k.run(c, [k.floats(c.rng) for _ in range(2000 if c.quick else 60000)] + k.all_exponents(), k.bump("native", 2, when=lambda e: e["e"] == "float" and 0 < e["f"][1] < 255))
