import batch
from behave import replay


def run(check):
    t = check.thorough
    check.env.use_shim()
    fix = {"discard", "last"}
    base = dict(
        module="Batch", adapter=batch.BatchAdapter, length=60,
        invariants=["Written", "SingleStored", "NoneActive"],
        properties=["Exact", "OnlyItsRealm"])
    specs = []
    for size in (1, 2, 3, 4, 5) if t else (1, 2, 3):
        specs.append(dict(
            base, part=f"batches of {size}", options=dict(max=size),
            constants=dict(Realms={"A"}, Contents={"a", "b"}, Max=size, MaxEntries=3, Fix=fix),
            steps=30000 if t else 3000))
        specs.append(dict(
            base, part=f"two realms, batches of {size}", options=dict(max=size),
            constants=dict(Realms={"A", "B"}, Contents={"a", "b", "c"}, Max=size,
                           MaxEntries=5 if t else 4, Fix=fix),
            simulate=200 if t else 30, depth=60, length=60, steps=10000 if t else 800))
    replay(check, specs, deadline=check.start + (400 if t else 250))
    # around the size that batches have
    counts = [1, 999, 1000, 1001, 2000, 2001] + ([1999, 3000, 3001, 500, 1500] if t else [])
    tasks = [(n, d, fault, check.seed) for n in counts
             for d, fault in [(10 ** 9, None), (40, None), (10 ** 9, 0), (60, 1), (60, 8)]
             if t or fault is None or n in (1001, 2001)]
    tasks.sort(key=lambda x: -x[0])
    results = check.run(
        "large", lambda task: batch.large(check.env, task), tasks, task_timeout=300,
        deadline=check.start + (700 if t else 450))
    check.add("large", trees=len(results))
