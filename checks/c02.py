import resource_common as r


def check(c):
    r.check(c, "full", r.mutate_reclaim)
