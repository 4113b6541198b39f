import wide
from checks.lifecycle_checks import ALL, EMPTY, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "purge", "reopen"]
    t = check.thorough
    # what there can be in each kind of object
    wide.replay(check, 0.5)
    # and all of them together
    decide(
        check,
        [("us", "stored", 6 if t else 3), ("tvl", "new", 6 if t else 3)],
        parts(check, ALL, 3000 if t else 450, 120 if t else 20, kw=dict(ops=ops))
        + parts(check, EMPTY, 800 if t else 120, 40 if t else 10, kw=dict(ops=ops)),
        dict(depth=0.6, gc=0.05))
