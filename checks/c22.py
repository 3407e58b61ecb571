import formats_common as k
import vf


def check(c):
    c.rule = ("text and yaml files with every kind of line ending, with and without a last one, read with buffers of any length (from the shortest which is allowed), limits and "
              "lengths of keys and values; distinct = recorded traces which differ")
    vf.models(c, "MCFormats")
    n = 4000 if c.quick else 60000
    k.run(c, [k.text(c.rng) + " " + k.text(c.rng) + " " + k.yaml(c.rng) + " " + k.yaml(c.rng) + " " + k.yaml_any(c.rng) for _ in range(n)] +
          [x for _ in range(3 if c.quick else 20) for x in k.large_text(c.rng) + k.large_yaml(c.rng)], k.bump("lines", 0, 0))
