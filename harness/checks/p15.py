import behave
import keymap
from checks.lifecycle_checks import ALL, EMPTY, closed, decide, parts


def run(check):
    ops = ["get", "set", "add", "del", "write", "purge", "copy", "reopen"]
    t = check.thorough
    # with prefixes
    behave.replay(check, keymap.specs(t, scale=0.7), deadline=check.start + (300 if t else 250))
    weight = dict(copy=6, write=2)
    decide(
        check,
        [("tv0", "stored", 6 if t else 4), ("ft", "new", 6 if t else 4)],
        [closed(skel, ["A", "B"], ["write", "purge", "get", "copy"], 1500 if t else 150,
                weight=dict(copy=4, write=2))
         for skel in ("md", "mrr", "ft", "vl", "tv0")]
        + parts(check, ALL + EMPTY, 4000 if t else 200, 150 if t else 15, kw=dict(ops=ops),
              ends=(False,), weight=weight, length=14),
        dict(depth=0.3, gc=0.1))
