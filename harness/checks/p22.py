from behave import replay
from sources import SourceAdapter


def run(check):
    t = check.thorough
    check.env.use_shim()
    ops = {"put", "hide", "copy", "write", "fault", "describe", "immediate"}
    base = dict(module="Sources", properties=["CopyExact"], adapter=SourceAdapter, length=40)
    consts = dict(Repos={"A", "B"}, Blobs={"o1", "o2"}, Trees={"t1"}, Ops=ops)
    replay(check, [
        dict(base, part="repositories", constants=dict(consts, Ops=ops - {"describe"}),
             steps=60000 if t else 8000),
        dict(base, part="three blobs", constants=dict(
            consts, Blobs={"o1", "o2", "o3"}, Ops=ops - {"describe"}),
            steps=40000 if t else 3000),
        dict(base, part="descriptions", constants=dict(
            consts, Blobs={"o1"}, Trees=set(), Ops={"describe", "immediate"}),
            steps=40000 if t else 6000)],
        deadline=check.start + (780 if t else 450))
