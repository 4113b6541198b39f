""" Adapter for TopLevel.tla (P09) """
import json
from uuid import UUID

import objects as ob
from behave import Adapter
from core import Violation, in_child, loose_objects, refs

from dataladmetadatamodel.common import (
    get_metadata_root_record_from_top_nodes, get_top_level_metadata_objects,
    get_top_nodes_and_metadata_root_record)
from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.uuidset import UUIDSet
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList

NAMES = [
    dict(r=1, s=2, t=3), dict(r=0, s=1 << 127, t=1 << 64),
    dict(r=0xabc << 100, s=0xabd << 100, t=0xabc)]
VERSIONS = [
    {"1": "v1", "2": "v2", "3": "v3", "4": "v4"}, {"1": "0" * 40, "2": "1" * 40, "3": "2", "4": "3"},
    {"1": "a b", "2": "a", "3": "é", "4": "-"}]
PATHS = [
    {"p": "p", "x": "sub", "x/y": "sub/nested"}, {"p": "a/b", "x": "a/b/c", "x/y": "a/b/c/d/e"},
    {"p": "é", "x": "x y", "x/y": "x y/z"}]


class TopLevelAdapter(Adapter):
    def start(self, state):
        rng = self.rng
        self.repo = self.env.repo(self.base / "r")
        self.ids = {k: UUID(int=v) for k, v in rng.choice(NAMES).items()}
        self.versions = rng.choice(VERSIONS)
        self.paths = {**rng.choice(PATHS), "": ""}
        self.back_id = {v: k for k, v in self.ids.items()}
        self.back_version = {v: k for k, v in self.versions.items()}
        self.back_path = {MetadataPath(v): k for k, v in self.paths.items()}
        self.tvl = self.us = None
        self.handles = {}

    def path(self, p):
        return MetadataPath(self.paths[p])

    def value(self, record):
        content = ob.probe(record.get_dataset_level_metadata())
        return 1 if content["v"] == -1 else content["v"]

    def tell(self, record):
        record.ensure_mapped()
        return [self.back_id.get(record.dataset_identifier, f"?{record.dataset_identifier}"),
                self.back_version.get(record.dataset_version, f"?{record.dataset_version}"),
                self.value(record)]

    def do_lookup(self, label):
        q, create = label["q"], label["create"]
        root = self.ids[q["id"]], self.versions[q["ver"]]
        sub = (self.ids[q["sid"]], self.versions[q["sver"]]) if q["path"] else (None, None)
        prefix, path = self.path(q["pre"]), self.path(q["path"])
        before = self.stored_state() if self.rng.random() < 0.3 else None
        if label["fresh"]:
            self.tvl, self.us, record = get_top_nodes_and_metadata_root_record(
                "git", self.repo, *root, prefix, path, *sub, create)
            self.handles = {}
        elif q["path"]:
            record = get_metadata_root_record_from_top_nodes(
                self.tvl, self.us, *sub, prefix, path, *root, create)
        else:
            record = get_metadata_root_record_from_top_nodes(
                self.tvl, self.us, *root, prefix, path, None, None, create)
        if before is not None and self.stored_state() != before:
            raise Violation("look-up wrote to the repository")
        if record is None:
            return None
        key = (q["ver"], q["pre"], q["path"])
        if key in self.handles and self.handles[key] is not record:
            raise Violation("another object was returned than by the last look-up")
        self.handles[key] = record
        return [[q["ver"], q["pre"]], q["path"], *self.tell(record)]

    def do_without(self, label):
        q = label["q"]
        root = self.ids[q["id"]], self.versions[q["ver"]]
        prefix, path = self.path(q["pre"]), self.path(q["path"])
        tvl = None if label["missing"] in ("tvl", "both") else self.tvl
        us = None if label["missing"] in ("us", "both") else self.us
        if q["path"]:
            sub = self.ids[q["sid"]], self.versions[q["sver"]]
            return get_metadata_root_record_from_top_nodes(
                tvl, us, *sub, prefix, path, *root, False)
        return get_metadata_root_record_from_top_nodes(
            tvl, us, *root, prefix, path, None, None, False)

    def check_result(self, label, result, before, after):
        if label["op"] in ("lookup", "without") and (result or []) != label["res"]:
            raise Violation(f"look-up returned {result}, expected {label['res']}")

    def stored_state(self):
        return refs(self.repo), loose_objects(self.repo)

    def do_change(self, label):
        (version, prefix), path = label["h"]
        record = self.handles[(version, prefix, path)]
        metadata = record.get_dataset_level_metadata()
        ob.run_metadata(metadata, label["v"])

    def do_save(self, label):
        (self.tvl if label["w"] == "tvl" else self.us).write_out(self.repo)

    def do_unload(self, label):
        for obj in self.rng.sample([self.tvl, self.us], 2):
            obj.write_out(self.repo)
        for obj in self.rng.sample([self.tvl, self.us], 2):
            obj.purge()
        self.handles = {}

    def trees(self, tvl):
        result = []
        for version, prefix in list(tvl.versions_and_prefix_paths()):
            _, _, tree = tvl.get_dataset_tree(version, prefix)
            records = [
                [self.back_path.get(p, f"?{p}"), *self.tell(r)] for p, r in tree.dataset_paths]
            result.append([self.key(version, prefix), sorted(records)])
        return sorted(result)

    def lists(self, us):
        result = []
        for uuid in list(us.uuids()):
            vl, entries = us.get_version_list(uuid), []
            for version, prefix in list(vl.versions_and_prefix_paths()):
                _, _, record = vl.get_versioned_element(version, prefix)
                entries.append([self.key(version, prefix), *self.tell(record)])
            result.append([self.back_id.get(uuid, f"?{uuid}"), sorted(entries)])
        return sorted(result)

    def key(self, version, prefix):
        return [self.back_version.get(version, f"?{version}"),
                self.back_path.get(prefix, f"?{prefix}")]

    def observe(self, state, label):
        if (self.tvl is not None and self.us is not None) != state["has"]:
            raise Violation(f"the top-level objects are {self.tvl}, {self.us}")
        if state["has"] and self.rng.random() < 0.25 and label["op"] != "lookup":
            self.memory(state)
        if label["op"] in ("save", "unload"):
            self.stored(state)

    def memory(self, state):
        self.compare("the trees in memory", self.trees(self.tvl), state["t"])
        self.compare("the version lists in memory", self.lists(self.us), state["l"])

    def compare(self, what, found, expected):
        wanted = sorted([k, sorted(v)] for k, v in expected)
        if found != wanted:
            raise Violation(f"{what} are {found}, expected {wanted}")

    def stored(self, state):
        def look():
            tvl, us = get_top_level_metadata_objects("git", self.repo)
            for what, obj, tell, expected in (
                    ("the stored trees", tvl, self.trees, state["st"]),
                    ("the stored version lists", us, self.lists, state["sl"])):
                if (obj is not None) != bool(expected):
                    raise Violation(f"{what}: {obj}, expected {expected}")
                if obj is not None:
                    self.compare(what, tell(obj), expected[0])
        in_child(look).get()

    def finish(self, state):
        if state["has"]:
            self.memory(state)
        self.stored(state)


def query(id, ver, pre="", path="", sid="", sver=""):
    return dict(id=id, ver=ver, pre=pre, path=path, sid=sid, sver=sver)


SMALL = [query("r", "1"), query("r", "1", "", "x", "s", "3")]
NESTED = [
    query("r", "1"), query("r", "1", "p"), query("r", "1", "", "x", "s", "3"),
    query("r", "1", "", "x/y", "t", "4"), query("r", "2", "", "x", "s", "2")]
SHARED = [query("r", "1"), query("r", "1", "", "x", "s", "3"), query("r", "2", "", "x", "s", "3")]
SELF = [query("r", "1"), query("r", "2", "", "x", "r", "1"), query("s", "1", "p", "x", "s", "2")]
OPS = {"lookup", "change", "save", "unload"}


class frozen(dict):
    def __hash__(self):
        return hash(repr(self))


def specs(thorough, scale=1.0):
    n = 10 if thorough else 1
    base = dict(module="TopLevel", invariants=["Agreement"],
                properties=["LookupRight", "SavedAgreement"], adapter=TopLevelAdapter, length=40)

    def consts(queries, values=(2,), level=1000):
        return dict(Queries={frozen(q) for q in queries}, Values=set(values), Ops=OPS,
                    MaxLevel=level)
    return [
        dict(base, part="small", constants=consts(SMALL, (2,), 9 if thorough else 7),
             steps=int(5000 * n * scale)),
        dict(base, part="nested", constants=consts(NESTED, (2, 3)),
             simulate=int(150 * n * scale), depth=40, steps=int(5000 * n * scale)),
        dict(base, part="shared", constants=consts(SHARED, (2, 3)),
             simulate=int(80 * n * scale), depth=40, steps=int(2000 * n * scale)),
        dict(base, part="self", constants=consts(SELF, (2, 3)),
             simulate=int(80 * n * scale), depth=40, steps=int(2000 * n * scale))]
