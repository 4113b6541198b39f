import core
import locks
import refstore
from checks.p13 import model


def run(check):
    t = check.thorough
    lock = dict(invariants=["Exclusive", "Backed"], constraints=["Bound"],
                properties=["LastRelease", "ForkedHoldsNothing"])
    check.model("locks, fork", "Lock", dict(
        Procs=set("pqcd"), First=set("pq"), Repos={"A"}, MaxDepth=3 if t else 2,
        Inherit=False), **lock)
    check.model("locks, two repositories", "Lock", dict(
        Procs=set("pqc"), First=set("pq"), Repos={"A", "B"}, MaxDepth=2,
        Inherit=False), **lock)
    check.model("locks, liveness", "Lock", dict(
        Procs=set("pqs" if t else "pq"), First=set("pqs" if t else "pq"), Repos={"A"},
        MaxDepth=1, Inherit=False), spec="Live", constraints=["Bound"], properties=["Served"],
        defs=['Served == \\A p \\in Procs : [](waits[p] # "-" => <>(waits[p] = "-"))'])
    model(check, "flushes", Procs={"p", "q"}, Repos={"A"}, Refs={"x"}, MaxBegin=2, MaxEnv=1,
          Fix={"lock", "legacy", "keep"})
    deadline = check.start + (400 if t else 300)
    seeds = [f"{check.seed}-{n}" for n in range(800 if t else 100)]
    histories = check.run("locks", lambda s: locks.record(check.env, s, 30), seeds,
                          deadline=deadline, nproc=2 * core.NPROC)
    flushes = check.run("flushes", lambda s: refstore.record_parallel(check.env, s, 60), seeds,
                        deadline=deadline + (300 if t else 120))
    check.coverage["traces_validated_against_impl"] = 0
    if histories:
        check.sample(dict(history=histories[0][:15]))
        locks.validate(check, "locks", sorted(histories, key=repr))
    if flushes:
        refstore.validate(check, "flushes", sorted(flushes, key=repr), procs="pqs", repos="A")
