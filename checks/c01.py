import resource_common as r


def check(c):
    r.check(c, "safety", r.mutate_safety)
