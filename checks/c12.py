import shutil, struct, tempfile
import vf


def raw(b):
    return "x" + bytes(b).hex()


class Gen:
    def __init__(self, rng):
        self.r = rng

    def content(self, width, n):
        r = self.r
        b = b""
        while len(b) < n:
            p = r.random()
            if width == "s":
                k = r.choice([1, 2, 3, 5, 9]) if p < .8 else r.choice([0, -1, -2, -3, 32767, -32768, 40])
                b += struct.pack("<h", k) + bytes(r.choice(b"abc") for _ in range(max(0, min(k, 40))))
            elif width == "p":
                k = r.choice([0, 1, 2, 3]) if p < .8 else r.choice([0x40000000, 0x40000001, 0x3fffffff, 0x7fffffff, 0xffffffff, 50, 0x3ffffffe, 0x3ffffffd])
                b += struct.pack("<BII", r.randrange(4), r.randrange(9), k) + b"".join(struct.pack("<I", r.randrange(9)) for _ in range(min(k, 3)))
            elif width == "c":
                k = r.choice([0, 1, 2, 3]) if p < .8 else r.choice([65535, 50, 32768])
                b += struct.pack("<BIIH", r.randrange(4), r.randrange(99), r.randrange(99), k) + bytes(8 * min(k, 3))
            else:
                b += bytes([r.choice([0, 1, 2, 4, 5, 100, 255])])
        return b[:n] if r.random() < .5 else b

    def script(self, src):
        r = self.r
        width = r.choice("ffffspc")
        es = r.choice([1, 2, 3, 4, 5, 8, 12, 36])
        isc = 1 if width == "f" and r.random() < .6 else 0
        at = r.choice([0, 0, 1, 4, 9])
        n = r.choice([0, 1, 3, 7, 8, 20, 60, 100])
        b = self.content(width, n)
        n = len(b)
        unit = es if isc else 1
        v = r.choice([0, 1, n // unit, n // unit, n // unit, n // unit + 1, max(0, n // unit - 1), n // unit // 2, n // unit * 2, 65535, 65536, 100000,
                      (1 << 32) - 1, (1 << 31) + 1, (1 << 32) - r.randrange(1, 9)] + ([((1 << 32) + unit - 1) // unit + r.choice([0, 1, n // unit, 5])] * 3 if isc else []))
        if isc and v * unit < 1 << 32 and v * unit > 1 << 27:
            v = (1 << 32) - 1
        v &= 0xffffffff
        whole = bytes(r.randrange(256) for _ in range(at)) + struct.pack("<I", v) + b
        if r.random() < .08:
            whole = whole[:at + r.choice([0, 1, 2, 3])]
        whole = whole or b"\1"
        at = min(at, len(whole))
        loaded = r.choice([0, 0, 1, 2, max(1, n // unit), 1000])
        cap, conc = r.choice([(0, 0), (0, 0), (3, 1), (8, 2)])
        keys = [0, 1, 2, n // unit, n // unit - 1, n // unit + 1, v - 1, v, v + 1, 65535, 65536, 1 << 20, (1 << 31), (1 << 32) - 1,
                ((1 << 32) // es), ((1 << 32) // es) + 1, n, n - 1, 2, 3, 5, 11]
        ops = ["g %d" % (r.choice(keys) & 0xffffffff) for _ in range(r.choice([3, 8, 15]))]
        if r.random() < .6:
            ops += ["A %d" % r.choice([0, 1, 2, len(whole), len(whole) // 2, len(whole) + 1, (1 << 64) - 1, (1 << 63), (1 << 63) - 1, (1 << 32), (1 << 64) - r.randrange(1, 200), r.randrange(30)])
                    for _ in range(r.choice([2, 5]))]
        return "%s %d %d %d %s %d %d %d %s %s" % (src, at, es, isc, width, loaded, cap, conc, raw(whole), " ".join(ops))


def mutate(t):
    for e in reversed(t):
        if e["e"] == "get" and e["ok"] and e["v"]:
            e["v"][0] = (e["v"][0] + 1) % 256
            return t
    return None


def check(c):
    c.rule = ("collections created from memory and from files of which any byte, the length and the count can be wrong, of every configuration, and gets of keys in "
              "and out of them, and advances of a reader by any 64 bit number, on the real collection.c and memory.c with exact buffers; distinct = recorded traces which differ")
    vf.models(c, "MCHeader", [("MCHeaderNone", "Invariant Never is violated")])
    g = Gen(c.rng)
    n = 3000 if c.quick else 60000
    d = tempfile.mkdtemp(dir=vf._tmpdir())
    try:
        vf.sequential(c, vf.prog("header", "fault", ["header.c"]), "HeaderTrace", [g.script(c.rng.choice("mff")) for _ in range(n)], mutate=mutate, args=[d], par=8)
        vf.sequential(c, vf.prog("header", "faultmem", ["header.c"]), "HeaderTrace", [g.script("f") for _ in range(n // 4)], args=[d], par=8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
