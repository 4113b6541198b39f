""" Adapter for EntryPoints.tla (P08) """
import json
import os
import subprocess
import sys
from uuid import UUID

import core
import objects as ob
from behave import Adapter
from core import Violation, in_child
from keymap import PREFIXES, UUIDS, VERSIONS
from server import Server

from dataladmetadatamodel.common import get_top_level_metadata_objects
from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.metadata import Metadata
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.uuidset import UUIDSet
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList


class Session:
    """ What one process does """
    def __init__(self, options):
        self.versions, self.prefix, self.uuids = options
        self.has = {"tvl": None, "us": None}

    def record(self, x):
        metadata = Metadata()
        ob.run_metadata(metadata, x)
        return MetadataRootRecord(UUID(int=9), f"d{x}", metadata, None)

    def key(self, v):
        return self.versions[v], MetadataPath(self.prefix if v != "1" else "")

    def load(self, repo):
        tvl, us = get_top_level_metadata_objects("git", repo)
        self.has = {"tvl": tvl, "us": us}
        for w, cls in (("tvl", TreeVersionList), ("us", UUIDSet)):
            if self.has[w] is not None and type(self.has[w]) is not cls:
                raise Violation(f"loading returned {type(self.has[w]).__name__} as {w}")
        return [w for w, o in self.has.items() if o is not None]

    def new(self, w):
        self.has[w] = TreeVersionList() if w == "tvl" else UUIDSet()

    def set_list(self, target, v, x):
        version, prefix = self.key(v)
        target.set_versioned_element(version, f"{x}.5", prefix, self.record(x))

    def set(self, w, u, v, x):
        if w == "tvl":
            version, prefix = self.key(v)
            tree = DatasetTree()
            tree.add_dataset(MetadataPath("s"), self.record(x))
            self.has[w].set_dataset_tree(version, f"{x}.5", prefix, tree)
        else:
            target = VersionList()
            self.set_list(target, v, x)
            self.has[w].set_version_list(UUID(int=self.uuids[u]), target)

    def empty(self, u):
        self.has["us"].set_version_list(UUID(int=self.uuids[u]), VersionList())

    def change(self, u, v, x):
        self.set_list(self.has["us"].get_version_list(UUID(int=self.uuids[u])), v, x)

    def write(self, w, repo):
        self.has[w].write_out(repo)

    def list_content(self, target):
        back = {self.key(v): v for v in self.versions}
        result = []
        for version, prefix in list(target.versions_and_prefix_paths()):
            stamp, _, element = target.get_versioned_element(version, prefix)
            if isinstance(element, DatasetTree):
                element = element.get_metadata_root_record(MetadataPath("s"))
            x = ob.probe(element.get_dataset_level_metadata())["v"]
            if stamp != f"{x}.5":
                raise Violation(f"time stamp {stamp!r} at {x}")
            result.append((back.get((version, prefix), f"?{version}"), x))
        return sorted(result)

    def content(self, w):
        if self.has[w] is None:
            return []
        if w == "tvl":
            return [self.list_content(self.has[w])]
        back = {UUID(int=n): u for u, n in self.uuids.items()}
        return [sorted(
            (back.get(u, f"?{u}"), self.list_content(self.has[w].get_version_list(u)))
            for u in list(self.has[w].uuids()))]


def normal(pairs):
    return json.loads(json.dumps(
        [sorted((k, sorted(v) if isinstance(v, list) else v) for k, v in p) for p in pairs]))


class EntryPointsAdapter(Adapter):
    def start(self, state):
        rng = self.rng
        self.repos = {r: self.env.repo(self.base / r) for r in state["store"]}
        options = (dict(zip("123", rng.choice(VERSIONS))), rng.choice(PREFIXES)[0],
                   dict(zip("uvw", rng.choice(UUIDS))))
        self.options = options
        self.servers = {}
        separate = rng.random() < 0.6
        for s in state["sess"]:
            self.servers[s] = Server(lambda: Session(options)) if separate else Local(
                Session(options))

    def perform(self, label, before, after):
        call = self.servers[label["s"]].call
        op = label["op"]
        if self.rng.random() < 0.04:
            core.pack(self.rng.choice(sorted(self.repos.values())))
        if op == "load":
            return call("load", self.repos[label["r"]])
        if op == "new":
            return call("new", label["w"])
        if op == "set":
            return call("set", label["w"], label.get("u"), label["v"], label["x"])
        if op == "empty":
            return call("empty", label["u"])
        if op == "change":
            return call("change", label["u"], label["v"], label["x"])
        return call("write", label["w"], self.repos[label["r"]])

    def observe(self, state, label):
        if label["op"] == "write" or self.rng.random() < 0.15:
            self.stored(state)
        if self.rng.random() < 0.3:
            self.memory(state)

    def stored(self, state):
        def look():
            result = {}
            for r, repo in self.repos.items():
                session = Session(self.options)
                session.load(repo)
                result[r] = {w: session.content(w) for w in ("tvl", "us")}
            return result
        self.compare(in_child(look).get(), state["store"], "stored")

    def memory(self, state):
        for s, server in self.servers.items():
            for w in ("tvl", "us"):
                self.compare({s: {w: server.call("content", w)}},
                             {s: {w: state["sess"][s][w]}}, "in memory")

    def compare(self, found, expected, what):
        for r, whichs in expected.items():
            for w, pairs in whichs.items():
                if normal(found[r][w]) != normal(pairs):
                    raise Violation(f"{w} of {r} {what} is {found[r][w]}, expected {pairs}")

    def finish(self, state):
        self.memory(state)
        self.stored(state)
        if self.rng.random() < 0.1:
            self.new_process(state)

    def new_process(self, state):
        """ once more, in a process that shares nothing with this one """
        code = (
            "import sys, json; sys.path[:0] = [{0!r}, {1!r}]\n"
            "import core; core.sys.path.insert(0, {2!r})\n"
            "import entrypoints as e, objects\n"
            "objects.use_style({5!r})\n"
            "s = e.Session({3!r}); s.load({4!r})\n"
            "print(json.dumps({{w: s.content(w) for w in ('tvl', 'us')}}))")
        for r, repo in self.repos.items():
            text = code.format(
                os.path.dirname(__file__), str(core.REPO), str(core.REPO), self.options, repo,
                ob.style)
            result = subprocess.run([sys.executable, "-"], input=text, capture_output=True, text=True)
            if result.returncode:
                raise Violation(f"loading in a new process failed: {result.stderr[-500:]}")
            self.compare({r: json.loads(result.stdout)}, {r: state["store"][r]}, "stored")

    def close(self):
        for server in getattr(self, "servers", {}).values():
            server.kill()
        super().close()


class Local:
    """ the same interface as a server, in this process """
    def __init__(self, obj):
        self.obj = obj

    def call(self, name, *args):
        return getattr(self.obj, name)(*args)

    def kill(self):
        pass


OPS = {"load", "new", "set", "change", "write"}


def specs(thorough, scale=1.0):
    n = 10 if thorough else 1
    base = dict(module="EntryPoints", invariants=["LeadsToLast"], properties=["Loaded"],
                adapter=EntryPointsAdapter)

    def consts(sessions, repos, versions, uuids, values, size, ops=OPS):
        return dict(Sessions=set(sessions), Repos=set(repos), Versions=set(versions),
                    Uuids=set(uuids), Values=set(values), MaxSize=size, Ops=ops)
    return [
        dict(base, part="small", length=50, steps=int(5000 * n * scale),
             constants=consts("s", "A", "1", "u", (1, 2), 1)),
        dict(base, part="wide", length=50, steps=int(9000 * n * scale),
             simulate=int(200 * n * scale), depth=60,
             constants=consts("st", "AB", "12", "uv", (1, 2), 2))]
