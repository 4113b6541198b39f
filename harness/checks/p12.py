from checks.lifecycle_checks import ALL, closed, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "force", "purge", "unget", "copy", "reopen"]
    t = check.thorough
    weight = dict(write=4, copy=3, unget=2)
    decide(
        check,
        [("us", "new", 5 if t else 3), ("tvl", "stored", 6 if t else 3)],
        parts(check, ("ft", "us", "tvl", "us", "tvl", "tv0"), 3000 if t else 400,
              100 if t else 30, kw=dict(ops=ops), ends=(False,), weight=weight, length=12),
        dict(depth=0.0, gc=1.0))
