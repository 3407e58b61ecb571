import lookup_common as k


def check(c):
    k.check(c, True)
