import copy
import json
import pickle

import core
from core import Violation

ALPHABETS = [
    # what the characters of the specification stand for
    {"/": "/", ".": ".", "\\": "\\", "a": "a", " ": " "},
    {"/": "/", ".": ".", "\\": "\n", "a": "é", " ": "~"},
    {"/": "/", ".": ".", "\\": ":", "a": "\U0001f600", " ": "\t"},
    {"/": "/", ".": ".", "\\": "*", "a": "C", " ": "\""}]


def text(chars, table):
    return "".join(table[c] for c in chars)


def check_pair(pair, table):
    from dataladmetadatamodel.metadatapath import MetadataPath
    x, y = text(pair["x"], table), text(pair["y"], table)
    px, py = (tuple(text(e, table) for e in pair[k]) for k in ("px", "py"))

    def equal(what, found, expected):
        if found != expected:
            raise Violation(f"{what}: {found!r}, expected {expected!r}")

    def is_path(what, path, parts):
        equal(f"type of {what}", isinstance(path, MetadataPath), True)
        equal(f"elements of {what}", tuple(path.parts), parts)
        equal(f"text of {what}", str(path), "/".join(parts))
        equal(f"{what} is absolute", path.is_absolute(), False)
        equal(f"length of {what}", len(path), len(parts))

    a, b = MetadataPath(x), MetadataPath(y)
    is_path(f"path {x!r}", a, px)
    is_path(f"path {y!r}", b, py)
    is_path(f"text of path {x!r} as path", MetadataPath(str(a)), px)
    is_path(f"posix text of path {x!r} as path", MetadataPath(a.as_posix()), px)
    is_path(f"path of path {x!r}", MetadataPath(a), px)
    is_path(f"elements of path {x!r} as path", MetadataPath(*a.parts), px)
    is_path(f"join {x!r} / {y!r}", a / b, px + py)
    is_path(f"join of {x!r} and {y!r}", MetadataPath(a, b), px + py)
    is_path(f"joinpath {x!r}, {y!r}", a.joinpath(b), px + py)
    # Texts are not metadata paths: an absolute text replaces what is in front of it.
    for what, c in ((f"{x!r} / text {y!r}", a / y), (f"{x!r}, text {y!r}", MetadataPath(a, y)),
                    (f"text {x!r} / path {y!r}", MetadataPath(x, b))):
        if y.startswith("/") and "text" in what and "path" not in what:
            is_path(what, c, py)
        else:
            is_path(what, c, px + py)
    is_path(f"join {x!r} / empty path", a / MetadataPath(""), px)
    is_path(f"join empty path / {x!r}", MetadataPath("") / a, px)
    is_path(f"join empty path without argument / {x!r}", MetadataPath() / a, px)
    is_path(f"copy of {x!r}", copy.deepcopy(a), px)
    is_path(f"pickled {x!r}", pickle.loads(pickle.dumps(a)), px)
    is_path(f"parent of {x!r}", a.parent, px[:-1])
    if px:
        is_path(f"parts of {x!r} joined", a.parent / MetadataPath(px[-1]), px)
    for c, pc in ((b, py), (a / b, px + py), (MetadataPath(str(a)), px)):
        equal(f"{a!r} == {c!r}", a == c, px == pc)
        equal(f"{a!r} != {c!r}", a != c, px != pc)
        if px == pc:
            equal(f"hash of {a!r} and {c!r}", hash(a), hash(c))
            equal(f"{c!r} as key", {a: 1}.get(c), 1)


def run(check):
    t = check.thorough
    lines = []
    for part, consts in (
            ("one path", dict(Chars=set("/.\\a "), MaxX=8 if t else 6, MaxY=0)),
            ("two paths", dict(Chars=set("/.\\a"), MaxX=4, MaxY=4) if t
             else dict(Chars=set("/.a"), MaxX=4, MaxY=4))):
        check.model(
            part, "Path", consts, constraints=["EmitState"], heap="8g",
            invariants=["Canonical", "RoundTrip", "Joined", "Neutral", "LeadingSlash",
                        "Injective", "Kept"], on_line=lines.append)
    lines = sorted(set(line[2:] for line in lines))
    check.add("replay", pairs=len(lines), alphabets=len(ALPHABETS))
    check.sample(lines[len(lines) // 2])
    size = len(lines) // 64 + 1
    tasks = [(n, lines[i:i + size]) for n in range(len(ALPHABETS))
             for i in range(0, len(lines), size)]

    def work(task):
        n, part = task
        for line in part:
            try:
                check_pair(json.loads(line), ALPHABETS[n])
            except Violation as e:
                e.data["pair"] = line
                raise
        return len(part)

    short = [(n, len(part)) for n, part in tasks]
    results = check.run("replay", lambda i: work(tasks[i]), range(len(tasks)), task_timeout=300)
    check.coverage["traces_validated_against_impl"] = sum(results)
    check.add("replay", tasks=len(short))
