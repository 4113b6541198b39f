import wide
from checks.lifecycle_checks import ALL, closed, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "purge", "unget", "list", "sweep"]
    t = check.thorough
    wide.replay(check, 0.4)
    few = ["get", "set", "write", "unget", "purge", "list"]
    weight = dict(purge=3, unget=3, list=2, write=2)
    decide(
        check,
        [("mrr", "stored", 6 if t else 4), ("vl", "stored", 6 if t else 3)],
        [closed("ft", ["A"], few, None if t else 800, weight=weight)]
        + parts(check, ALL, 4000 if t else 350, 150 if t else 20, kw=dict(ops=ops),
                weight=weight),
        dict(depth=0.6, gc=0.0, readers=0.15))
