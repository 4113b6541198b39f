from behave import replay
import entrypoints
import keymap


def run(check):
    t = check.thorough
    check.model(
        "two sessions", "EntryPoints", dict(
            Sessions={"s", "t"}, Repos={"A"}, Versions={"1"}, Uuids={"u", "v"} if t else {"u"},
            Values={1, 2}, MaxSize=2 if t else 1, Ops=entrypoints.OPS),
        invariants=["LeadsToLast"], properties=["Loaded"], constraints=["Bound"], view="GenView")
    replay(check, entrypoints.specs(t) + keymap.specs(t, ("us",)),
           deadline=check.start + (780 if t else 450))
