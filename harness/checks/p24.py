import random

import behave
import core
import treeupdate


def run(check):
    t = check.thorough
    # the specification alone, on all updates
    check.model("union", "TreeUpdate", dict(
        Names={"a", "b"}, Depth=2, Blobs={"f", "g"} if t else {"f"}, MaxLen=3 if t else 2,
        Branch=0), invariants=["TypeOK"], properties=["IsUnion"], view="GenView")
    behave.replay(check, treeupdate.specs(t), deadline=check.start + (800 if t else 400))
    if check.violations:
        return
    records = []
    seeds = [f"{check.seed}-{n}" for n in range(32)]
    results, violations = core.run_tasks(
        lambda seed: treeupdate.record(check.env, seed, 100 if t else 20), seeds)
    for task, message, data in violations:
        check.violation("recorded", task, message, data)
    for result in results:
        records.extend(result)
    records.sort(key=repr)
    treeupdate.validate(check, "recorded", records)
