""" Replay of TreeUpdate.tla on the bulk tree update """
import json
import random
from pathlib import Path

import core
from behave import Adapter
from core import Violation, git, tla

NAMES = [
    ("a", "b", "c"), ("x y", "x", "y"), ('"', '\\"', "\\"), ("é", "e", "\u00e8"),
    ("a\nb", "a", "b"), ("0", "00", "000"), ("-", "--", "-p"), ("a", "a.b", "a-b"),
    ("\udcff", "\udcfe", "\u00ff"), ("\x07", "\\a", "a")]


def store_blob(repo, text):
    return git(repo, "hash-object", "-w", "--stdin", stdin=text).strip()


def store_tree(repo, content):
    """ content: path -> blob or 'dir', store it and return its hash """
    lines = []
    for path, value in content.items():
        if len(path) == 1:
            kind, mode = "blob", "100644"
            if value == "dir":
                kind, mode = "tree", "040000"
                value = store_tree(
                    repo, {p[1:]: v for p, v in content.items()
                           if len(p) > 1 and p[0] == path[0]})
            lines.append(f"{mode} {kind} {value}\t{path[0]}\0".encode(
                "utf-8", "surrogateescape"))
    return git(repo, "mktree", "-z", "--missing", stdin=b"".join(lines),
               text=False).decode().strip()


def read_tree(repo, tree):
    """ what is stored: path -> blob or 'dir' """
    out = git(repo, "ls-tree", "-r", "-t", "-z", "--full-tree", tree, text=False)
    result = {}
    for line in out.split(b"\0"):
        if not line:
            continue
        fields, name = line.split(b"\t", 1)
        mode, kind, value = fields.decode().split(" ")
        path = tuple(name.decode("utf-8", "surrogateescape").split("/"))
        if (kind, mode) not in (("tree", "040000"), ("blob", "100644")):
            raise Violation(f"entry {path} has mode {mode}, type {kind}")
        if path in result:
            raise Violation(f"{path} is twice in the tree")
        result[path] = "dir" if kind == "tree" else value
    return result


def add_paths(repo, tree, entries, rng):
    """ entries: (path, 'f' or 'd', hash) """
    from dataladmetadatamodel.mapper.gitmapper.treeupdater import (
        DirEntry, EntryType, PathInfo, add_paths)
    kinds = {"f": EntryType.File, "d": EntryType.Directory}
    top = []
    out = git(repo, "ls-tree", "-z", tree, text=False)
    for line in out.split(b"\0"):
        if line:
            fields, name = line.split(b"\t", 1)
            _, kind, value = fields.decode().split(" ")
            top.append(DirEntry(kinds["d" if kind == "tree" else "f"], value,
                                name.decode("utf-8", "surrogateescape")))
    rng.shuffle(top)
    infos = [PathInfo(list(path), value, kinds[kind]) for path, kind, value in entries]
    return add_paths(Path(repo), infos, top)


class TreeUpdateAdapter(Adapter):
    def start(self, state):
        self.repo = self.env.repo(self.base / "r")
        names = self.rng.choice(NAMES)
        self.names = dict(zip(sorted(self.options["names"]), names))
        self.blobs = {b: store_blob(self.repo, b) for b in self.options["blobs"]}
        self.blobs["dir"] = "dir"
        self.tree = store_tree(self.repo, {})

    def path(self, path):
        return tuple(self.names[n] for n in path)

    def content(self, pairs):
        return {self.path(p): self.blobs[v] for p, v in pairs}

    def perform(self, label, before, after):
        entries = []
        for entry in label["u"]:
            value = self.blobs[entry["b"]] if entry["k"] == "f" else store_tree(
                self.repo, self.content(entry["content"]))
            entries.append((self.path(entry["p"]), entry["k"], value))
        tree = add_paths(self.repo, self.tree, entries, self.rng)
        if label["ok"]:
            self.tree = tree

    def observe(self, state, label):
        found, expected = read_tree(self.repo, self.tree), self.content(state["m"])
        if found != expected:
            raise Violation(f"tree is {found}, expected {expected}")


def record(env, seed, steps):
    """ Perform random updates, record what happens """
    rng = random.Random(seed)
    repo = env.repo()
    style = rng.choice(["deep", "hash", "names"])
    names = (["a", "b", "c"] if style == "deep" else ["0", "1", "10", "01"]
             if style == "hash" else ["é", '"', "a b", "\\", "\u00ff", "\x01"])
    depth = {"deep": 6, "hash": 4, "names": 3}[style]
    blobs = [store_blob(repo, str(n)) for n in range(4)]

    def a_path(known=()):
        if known and rng.random() < 0.5:
            path = rng.choice(known)
            return path if rng.random() < 0.5 else (
                path + (rng.choice(names),) if rng.random() < 0.6 else path[:-1] or path)
        length = depth if style == "hash" else rng.randint(1, depth)
        return tuple(rng.choice(names) for _ in range(length))

    tree, result = store_tree(repo, {}), []
    for _ in range(steps):
        before = read_tree(repo, tree)
        if before == {} or rng.random() < 0.2 or len(before) > 120:
            before = {}
            for _ in range(rng.randrange(12)):
                path = a_path()
                if path not in before and not any(
                        before.get(path[:n], "dir") != "dir" for n in range(1, len(path))):
                    before.update({path[:n]: "dir" for n in range(1, len(path))})
                    before[path] = rng.choice(blobs)
            tree = store_tree(repo, before)
        known = sorted(before)
        entries, recorded = [], []
        for _ in range(rng.choice([1, 2, 3, 5, 8, 20])):
            path = a_path(known)
            if rng.random() < 0.9 and before.get(path, "file") == "dir":
                kind = "d"
            else:
                kind = "d" if rng.random() < 0.1 else "f"
            if rng.random() < 0.85 and any(
                    e[0] == path[:len(e[0])] or path == e[0][:len(path)] for e in entries):
                continue
            content = {}
            if kind == "d" and rng.random() < 0.7:
                content = {(rng.choice(names),): rng.choice(blobs)}
            value = store_tree(repo, content) if kind == "d" else rng.choice(blobs)
            entries.append((path, kind, value))
            recorded.append(dict(p=path, k=kind, b=value if kind == "f" else "",
                                 content=list(content.items())))
        if not entries:
            continue
        try:
            new, ok = add_paths(repo, tree, entries, rng), True
        except ValueError:
            new, ok = tree, False
        if read_tree(repo, tree) != before:
            raise Violation("the tree that is updated has changed")
        result.append(dict(before=list(before.items()), u=recorded, ok=ok,
                           after=list(read_tree(repo, new).items())))
        tree = new
    return result


def validate(check, part, records):
    """ Let TLC decide whether recorded updates are steps of the specification """
    text = json.dumps(records)
    result = core.run_tlc(
        check.env, "TreeUpdateTrace", dict(
            Names={"a"}, Depth=1, Blobs={"b"}, MaxLen=1, Branch=0,
            TraceFile="trace.json"), spec="TraceSpec", workers=1,
        extra_files={"trace.json": text})
    if not result.ok:
        check.model_error(part, result)
    if result.distinct != len(records) + 1:
        raise core.MachineryError("the trace was not validated completely")
    for line in result.lines:
        if line.startswith("BAD "):
            record = records[int(line[4:]) - 1]
            check.violation(part, record, "recorded update is no step of the specification")
    check.coverage["traces_validated_against_impl"] += len(records)
    check.add(part, updates=len(records), accepted=sum(r["ok"] for r in records),
              entries=sum(len(r["u"]) for r in records))


def specs(thorough):
    n = 10 if thorough else 1
    base = dict(module="TreeUpdate", invariants=["TypeOK"], properties=["IsUnion"],
                adapter=TreeUpdateAdapter, length=30)

    def one(part, steps, **constants):
        return dict(base, part=part, constants=constants, steps=steps, options=dict(
            names=constants["Names"], blobs=constants["Blobs"]))
    return [
        dict(one("depth 2", 6000 * n, Names={"a", "b"}, Depth=2, Blobs={"f", "g"}, MaxLen=3,
                 Branch=40), simulate=150 * n, depth=60),
        one("pairs", 6000 * n, Names={"a", "b"}, Depth=2, Blobs={"f"}, MaxLen=2,
            Branch=0),
        dict(one("depth 3", 3000 * n, Names={"a", "b"}, Depth=3, Blobs={"f", "g"}, MaxLen=2,
                 Branch=40), simulate=80 * n, depth=60)]
