import core
import refstore

PROPERTIES = ["Grows", "Kept", "LegacyMigrated", "Complete", "BrokenKept", "Separate",
              "FailKeeps"]


def model(check, part, **constants):
    check.model(part, "RefStore", constants, invariants=["TypeOK", "Exclusive"],
                properties=PROPERTIES, constraints=["Bound"])


def run(check):
    t = check.thorough
    parts = {"lock", "legacy", "keep"}
    model(check, "two repositories", Procs={"p"}, Repos={"A", "B"}, Refs={"x"},
          MaxBegin=3 if t else 2, MaxEnv=1, Fix=parts)
    model(check, "two references", Procs={"p"}, Repos={"A"}, Refs={"x", "y"},
          MaxBegin=3 if t else 2, MaxEnv=2, Fix=parts)
    model(check, "two processes", Procs={"p", "q"}, Repos={"A"},
          Refs={"x", "y"} if t else {"x"}, MaxBegin=2, MaxEnv=2, Fix=parts)
    seeds = [f"{check.seed}-{n}" for n in range(1500 if t else 160)]
    results = check.run("recorded", lambda seed: refstore.record(check.env, seed, 30), seeds,
                        deadline=check.start + (600 if t else 350))
    for result in results:
        check.add("recorded", **{f"faults, {k}": v for k, v in result["faults"].items()})
    check.coverage["traces_validated_against_impl"] = 0
    histories = sorted((r["events"] for r in results), key=repr)
    if histories:
        check.sample(dict(history=[
            {k: v for k, v in e.items() if k != "obs"} for e in histories[0][:12]]))
        refstore.validate(check, "recorded", histories)
    # several processes at the same time, see also P14
    seeds = [f"{check.seed}-{n}" for n in range(200 if t else 40)]
    results = check.run(
        "parallel", lambda seed: refstore.record_parallel(check.env, seed, 60), seeds,
        deadline=check.start + (750 if t else 500))
    check.coverage["traces_validated_against_impl"] = len(histories)
    if results:
        refstore.validate(check, "parallel", sorted(results, key=repr), procs="pqs", repos="A")
