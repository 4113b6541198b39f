"""
Non-vacuity of the specifications: without one of the design decisions in `Fix`
the properties do not hold.

Usage: vacuity.py            (about a minute, exit code 1 if TLC finds no violation)
"""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))

import core  # noqa: E402


def cases():
    import lifecycle as lc
    from checks.p10 import SHAPES
    from checks.p13 import PROPERTIES

    shape = {"sub": ("ft", "stored", 5), "parts": ("us1", "new", 6)}
    for fix in sorted(lc.ALL_FIXES):
        yield "Lifecycle", fix, dict(
            constants=lc.constants(*shape.get(fix, ("mrr", "stored", 5)), fix=lc.ALL_FIXES - {fix}),
            constraints=["Bound"], invariants=lc.INVARIANTS, properties=lc.PROPERTIES)
    saves = dict(
        constraints=["Bound"],
        invariants=["EntryComplete", "RefsComplete", "SavedStored", "FlushProtects"],
        properties=["EntryChange", "RefsGrow"])
    for fix in sorted(SHAPES["Fix"]):
        yield "Save", fix, dict(
            saves, constants=dict(SHAPES, Fix=SHAPES["Fix"] - {fix}, MaxOps=2))
    stores = {"lock", "legacy", "keep"}
    for fix in sorted(stores):
        yield "RefStore", fix, dict(
            constants=dict(Procs={"p", "q"}, Repos={"A"}, Refs={"x", "y"}, MaxBegin=2, MaxEnv=2,
                           Fix=stores - {fix}),
            invariants=["TypeOK", "Exclusive"], properties=PROPERTIES, constraints=["Bound"])
    yield "Lock", "a forked process holds nothing", dict(
        constants=dict(Procs=set("pqc"), First=set("pq"), Repos={"A"}, MaxDepth=2, Inherit=True),
        invariants=["Exclusive", "Backed"], constraints=["Bound"],
        properties=["LastRelease", "ForkedHoldsNothing"])
    batch = {"discard", "last"}
    for fix in sorted(batch):
        yield "Batch", fix, dict(
            constants=dict(Realms={"A", "B"}, Contents={"a", "b"}, Max=3, MaxEntries=3,
                           Fix=batch - {fix}),
            invariants=["Written", "SingleStored", "NoneActive"], constraints=["Bound"],
            properties=["Exact", "OnlyItsRealm"])


def main():
    env = core.Env("vacuity")
    bad = 0
    try:
        env.use_shim()
        env.import_code()
        for module, fix, options in cases():
            result = core.run_tlc(env, module, **options)
            error = (result.error or ["no violation"])[0]
            found = "is violated" in error
            print(f"{module} without {fix!r}: {error[:100]}", flush=True)
            bad += not found
    finally:
        env.close()
    return int(bad > 0)


if __name__ == "__main__":
    sys.exit(main())
