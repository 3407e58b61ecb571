import formats_common as k
import vf


def check(c):
    c.rule = ("addresses of both versions with every place of the zeros left out, ports, too many or few segments and malformed ones, lists of them, and comparisons; failing "
              "allocations; distinct = recorded traces which differ")
    vf.models(c, "MCFormats")
    n = 5000 if c.quick else 60000
    k.run(c, [k.addresses(c.rng) for _ in range(n)] + [k.large_addresses(c.rng) for _ in range(3 if c.quick else 20)] + k.systematic_ip6(), k.bump("list", 0, "type"))
