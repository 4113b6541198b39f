from core import Raw
import saves

SHAPES = dict(
    Objects=Raw('{"t", "n", "m", "b"}'), Entries={"e"},
    Shapes=Raw('{[t |-> {"m"}, n |-> {"m"}, m |-> {"b"}, b |-> {}],'
               ' [t |-> {"n"}, n |-> {"m", "b"}, m |-> {"b"}, b |-> {}]}'),
    Trees=Raw('{{"t", "n"}, {}}'), Fix={"order", "register", "saved"})


def decide(check, mode, quick):
    t = check.thorough
    check.model(
        "commands", "Save", dict(SHAPES, MaxOps=4 if t else 2), constraints=["Bound"],
        invariants=["EntryComplete", "RefsComplete", "SavedStored", "FlushProtects"],
        properties=["EntryChange", "RefsGrow"])
    seeds = [f"{mode}-{check.seed}-{n}" for n in range(2500 if t else quick)]
    results = check.run(
        "recorded", lambda s: saves.record_history(check.env, s, 25, mode), seeds,
        deadline=check.start + (500 if t else 350))
    check.coverage["traces_validated_against_impl"] = 0
    if results:
        check.sample(dict(history=results[0]["events"][:12]))
        saves.validate(check, "recorded", sorted(results, key=repr))


def run(check):
    decide(check, "kill", 360)
