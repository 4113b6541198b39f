from checks.lifecycle_checks import ALL, closed, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "force", "purge", "unget", "reopen"]
    t = check.thorough
    few = ["get", "set", "write", "purge"]
    weight = dict(write=4, purge=2)
    decide(
        check,
        [("ft", "stored", 6 if t else 4), ("mrr", "new", 6 if t else 4)],
        [closed("md", ["A", "B"], few + ["unget"], None, weight=weight)]
        + parts(check, ALL, 4000 if t else 550, 150 if t else 30, kw=dict(ops=ops),
                weight=weight),
        dict(depth=0.4, gc=0.0))
