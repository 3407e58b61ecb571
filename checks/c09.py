import collection_common as k


def check(c):
    k.check(c, False)
