import wide
from checks.lifecycle_checks import ALL, EMPTY, closed, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "force", "purge", "unget", "reopen", "list",
           "sweep"]
    t = check.thorough
    wide.replay(check, 0.4)
    few = ["get", "set", "write", "unget", "purge"]
    decide(
        check,
        [("ft", "stored", 6 if t else 4), ("us", "new", 5 if t else 3)],
        [closed("ft", ["A"], few, None if t else 800)]
        + parts(check, ALL, 4000 if t else 350, 150 if t else 20, kw=dict(ops=ops))
        + parts(check, EMPTY, 1000 if t else 120, 40 if t else 10, kw=dict(ops=ops)),
        dict(depth=0.4, gc=0.05))
