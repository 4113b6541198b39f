"""
Adapter for Access.tla (P04). Before each operation all stored objects that are
not on the ways to what was accessed are moved out of the repository.
"""
import json
import os

import gitread
import objects as ob
from behave import Adapter
from core import Violation, loose_objects
from objects import ROOT_RECORD, UUIDS, UUID_NAMES, VERSIONS, VERSION_NAMES

from dataladmetadatamodel.metadatapath import MetadataPath

NAMES = [
    {"a": "a", "b": "b", "x": "x", "y": "y"},
    {"a": "a b", "b": "a", "x": "a.b", "y": "A"},
    {"a": "\u00e9", "b": ".x", "x": "s", "y": "s.t"}]


class AccessAdapter(Adapter):
    def start(self, state):
        self.repo = self.env.repo(self.base / "r")
        self.hidden = self.base / "hidden"
        self.hidden.mkdir()
        self.name = self.rng.choice(NAMES)
        self.back = {v: k for k, v in self.name.items()}
        self.kind = self.options["root"]
        self.root = None
        self.ids = {}

    # ---------------------------------------------------------- hide objects
    def store_ids(self):
        """ objects of the object reference store """
        result = set()

        def walk(ident, length):
            result.add(ident)
            for mode, name, child in gitread.parse_tree(
                    gitread.read_object(self.repo, ident, [self.hidden])[1]):
                if mode == "40000" and length + len(name) < 40:
                    walk(child, length + len(name))
        root = gitread.read_ref(self.repo, "refs/datalad/object-references-2.0")
        if root:
            walk(root, 0)
        return result

    def hide(self, allowed):
        keep = set().union(*(self.ids.get(p, ()) for p in allowed)) | self.store_ids()
        for ident in loose_objects(self.repo) - keep:
            os.rename(gitread.object_path(self.repo, ident), self.hidden / ident)

    def restore(self):
        for path in self.hidden.iterdir():
            target = gitread.object_path(self.repo, path.name)
            target.parent.mkdir(exist_ok=True)
            os.rename(path, target)

    # ------------------------------------------------- what is stored, and where
    def stored_ids(self, kind, location, path, result):
        """ path -> ids of the stored objects of this node """
        kind_of, content = gitread.read_object(self.repo, location, [self.hidden])

        def sub(kid, name, where):
            if where != "*None*":
                self.stored_ids(kid, where, path + (name,), result)
        try:
            ids = {location}
            if kind == "md":
                ids.add(json.loads(content)["location"])
            elif kind == "mrr":
                record = json.loads(content)
                sub("md", "M", record["dataset_level_metadata"]["location"])
                sub("ft", "F", record["file_tree"]["location"])
            elif kind in ("vl", "tvl"):
                for entry in json.loads(content):
                    name = VERSION_NAMES[entry["primary_data_version"], entry["path"]]
                    sub("mrr" if kind == "vl" else "dt", name, entry["dataset_tree"]["location"])
            elif kind == "us":
                for _, name, child in gitread.parse_tree(content):
                    sub("vl", self.uuid_name(name), child)
            else:
                for mode, name, child in gitread.parse_tree(content):
                    name = name.decode()
                    name = "R" if name == ROOT_RECORD else self.back[name]
                    sub(kind if mode == "40000" else "md" if kind == "ft" else "mrr", name, child)
            result[path] = ids
        except (ValueError, KeyError) as e:
            raise Violation(f"stored {kind} at {path} is not as expected: {e!r}, {content!r}")
        return result

    def uuid_name(self, name):
        for uuid, known in UUID_NAMES.items():
            if name.decode() in (str(uuid), uuid.hex):
                return known
        raise KeyError(name)

    def location(self):
        if self.kind == "us":
            return gitread.read_ref(self.repo, "refs/datalad/dataset-uuid-set")
        if self.kind == "tvl":
            return gitread.read_ref(self.repo, "refs/datalad/dataset-tree-version-list")
        return ob.reference(self.root).location

    def look(self):
        return self.stored_ids(self.kind, self.location(), (), {})

    # ---------------------------------------------------------- navigation
    def rename(self, content):
        """ content of the specification as the harness probes it """
        kind = content["k"]
        trees = kind in ("ft", "dt")
        kids = content["c"] or {}
        return dict(
            k="n" if trees else "vl" if kind == "tvl" else kind, v=content["v"],
            c={self.name[n] if trees and n != "R" else n: self.rename(c)
               for n, c in kids.items()})

    def new(self, kind, content):
        """ build() with the names of this behaviour """
        def spell(c):
            trees = c["k"] in ("ft", "dt")
            return dict(c, c={self.name[n] if trees and n != "R" else n: spell(k)
                              for n, k in (c.get("c") or {}).items()})
        return ob.build(kind, spell(content))

    def relative(self, names):
        return MetadataPath("/".join(ROOT_RECORD if n == "R" else self.name[n] for n in names))

    def find(self, path):
        """ object at path, or, within trees, the tree and the names within it """
        obj, kind, rest = self.root, self.kind, []
        for n, name in enumerate(path):
            if kind == "us":
                obj, kind = obj.get_version_list(UUIDS[name]), "vl"
            elif kind in ("vl", "tvl"):
                version, prefix, _ = VERSIONS[name]
                get = obj.get_versioned_element
                if kind == "tvl" and self.rng.random() < 0.5:
                    get = obj.get_dataset_tree
                obj = get(version, MetadataPath(prefix))[2]
                kind = "mrr" if kind == "vl" else "dt"
            elif kind == "mrr" and name == "M":
                obj, kind = obj.get_dataset_level_metadata(), "md"
            elif kind == "mrr":
                obj, kind = obj.get_file_tree(), "ft"
            elif kind == "dt" and name == "R":
                obj, kind, rest = obj.get_metadata_root_record(self.relative(rest)), "mrr", []
            else:
                rest = rest + [name]
                if kind == "ft" and n + 1 == len(path) and self.kinds[path] == "md":
                    obj, kind, rest = obj.get_metadata(self.relative(rest)), "md", []
        return obj, rest

    def node(self, path):
        obj, rest = self.find(path)
        return ob.tree(obj).get_object_at_path(self.relative(rest))

    def key(self, label, name="p"):
        return tuple(label[name])

    # ---------------------------------------------------------- operations
    def perform(self, label, before, after):
        if label["op"] in ("grow", "store"):
            if label["op"] == "store":
                self.root = self.new(self.kind, after["content"])
                self.root.write_out(self.repo)
                self.ids = self.look()
                self.root.purge()
            return None
        self.kinds = {tuple(p): k for p, k, _ in before["n"]}
        allowed = {tuple(p) for p in after["need"]}
        if label["op"] == "load":
            allowed |= {()}
        if label["op"] == "save":
            # What is rewritten, although it is stored, shall be visible
            allowed = set()
        if label["op"] == "unget":
            p = self.key(label)
            allowed |= {p[:n] for n in range(len(p) + 1)}
        self.hide(allowed)
        visible = loose_objects(self.repo)
        try:
            result = getattr(self, "do_" + label["op"])(label)
            created = loose_objects(self.repo) - visible
        finally:
            self.restore()
        dirty = {tuple(p) for p in before["dirty"]}
        if label["op"] == "save":
            self.after_save(self.look(), created, dirty, before, after, ())
        elif label["op"] == "unget":
            p = self.key(label)
            part = self.stored_ids(
                {"us": "vl", "vl": "mrr", "tvl": "dt", "ft": "md"}[label["k"]],
                ob.reference(self.part).location, p, {})
            others = {q: i for q, i in self.ids.items() if q[:len(p)] != p}
            self.after_save({**others, **part}, created, dirty, before, after, p)
        elif created:
            raise Violation(f"objects {created} were written without saving")
        return result

    def after_save(self, ids, created, dirty, before, after, top):
        below = {p for p in ids if p[:len(top)] == top}
        nodes = {tuple(p) for p, _, _ in after["n"] if tuple(p[:len(top)]) == top}
        if below != nodes:
            raise Violation(f"stored are {sorted(below)}, expected {sorted(nodes)}")
        for p in {tuple(p) for p in before["stored"]} - dirty:
            if p in below and p in self.ids and ids[p] != self.ids[p]:
                raise Violation(f"{p} was not changed, but its location is {ids[p]}, "
                                f"was {self.ids[p]}")
        right = set().union(*(ids[p] for p in below & dirty)) | self.store_ids()
        if created - right:
            names = [p for p in ids if ids[p] & created]
            raise Violation(
                f"objects {created - right} were written, written were objects at "
                f"{sorted(names)}, changed are {sorted(dirty)}")
        self.ids = {p: i for p, i in ids.items()}

    def do_access(self, label):
        p, kind = self.key(label), label["k"]
        obj, rest = self.find(p)
        if kind == "md":
            return ob.probe(obj)["v"]
        if kind == "us":
            return [UUID_NAMES.get(u, str(u)) for u in obj.uuids()]
        if kind in ("vl", "tvl"):
            found = [VERSION_NAMES.get((v, str(x)), f"?{v}{x}")
                     for v, x in obj.versions_and_prefix_paths()]
            if len(found) != len(obj) or len(found) != len(list(obj.versions())):
                raise Violation("sizes of the version list differ")
            return found
        if kind == "mrr":
            obj.ensure_mapped()
            if (obj.dataset_identifier, obj.dataset_version) != (ob.RECORD["id"], ob.RECORD["version"]):
                raise Violation("wrong identifier or version in root record")
            return label["res"]
        node = ob.tree(obj)
        return [n for n in [*self.name, "R"]
                if node.get_object_at_path(self.relative(rest + [n])) is not None]

    def do_contains(self, label):
        obj, rest = self.find(self.key(label))
        return self.relative(rest + [label["x"]]) in obj

    def do_list(self, label):
        p = self.key(label)
        obj, rest = self.find(p)
        if label["k"] == "dt" and not rest and self.rng.random() < 0.5:
            found = [path / ROOT_RECORD for path, _ in obj.dataset_paths]
        elif not rest:
            found = [path for path, _ in obj.get_paths_recursive()]
        else:
            found = [path for path, _ in ob.tree(obj).get_object_at_path(
                self.relative(rest)).get_paths_recursive()]
        return [["R" if part == ROOT_RECORD else self.back.get(part, part) for part in path.parts]
                for path in found]

    def check_result(self, label, result, before, after):
        if label["op"] == "list":
            found, wanted = sorted(map(tuple, result)), sorted(map(tuple, label["res"]))
            if found != wanted:
                raise Violation(f"listed are {found}, expected {wanted}")
            return
        super().check_result(label, result, before, after)

    def do_run(self, label):
        p = self.key(label)
        if len(p) > 1 and self.kinds[p[:-1]] == "ft" and self.rng.random() < 0.5:
            obj, rest = self.find(p[:-1])
            metadata = obj.get_metadata(self.relative(rest + [p[-1]]))
        else:
            metadata, _ = self.find(p)
        # replaces the earlier run, the configuration is the same
        ob.run_metadata(metadata, label["v"])

    def metadata(self, value):
        return ob.build("md", {"k": "md", "v": value})

    def do_file(self, label):
        p = self.key(label)
        obj, rest = self.find(p[:-1])
        path = self.relative(rest + [p[-1]])
        if self.rng.random() < 0.5:
            ob.run_at(obj, path, label["v"])
        else:
            obj.add_metadata(path, self.metadata(label["v"]))

    def do_part(self, label):
        p = self.key(label)
        record, _ = self.find(p[:-1])
        if p[-1] == "M":
            record.set_dataset_level_metadata(self.metadata(label["v"]))
        else:
            record.set_file_tree(self.new("ft", {"k": "ft", "v": 0, "c": {
                "a": {"k": "md", "v": label["v"]}}}))

    def record(self, label):
        leaf = {"k": "md", "v": label["v"]}
        kids = {"none": {}, "M": {"M": leaf}, "F": {"F": {"k": "ft", "v": 0, "c": {"a": leaf}}}}
        return {"k": "mrr", "v": 0, "c": kids[label["y"]]}

    def do_dataset(self, label):
        p = self.key(label)
        # the directory may be new, its parent exists
        at = p if p in self.kinds else p[:-1]
        obj, rest = self.find(at)
        record = self.new("mrr", self.record(label))
        if at != p and self.rng.random() < 0.5:
            obj.add_subtree(
                self.new("dt", {"k": "dt", "v": 0, "c": {"R": self.record(label)}}),
                self.relative(rest + [p[-1]]))
        else:
            obj.add_dataset(self.relative(rest + list(p[len(at):])), record)

    def do_remove(self, label):
        p = self.key(label)
        obj, rest = self.find(p[:-1])
        path = self.relative(rest + [p[-1]])
        if label["k"] == "dt":
            obj.delete_subtree(path)
        else:
            ob.tree(obj).remove_child_at(path)

    def do_version(self, label):
        p = self.key(label)
        obj, _ = self.find(p[:-1])
        version, prefix, time_stamp = VERSIONS[p[-1]]
        content = self.record(label)
        if label["k"] == "tvl":
            content = {"k": "dt", "v": 0, "c": {"R": content}}
        put = obj.set_versioned_element
        if label["k"] == "tvl" and self.rng.random() < 0.5:
            put = obj.set_dataset_tree
        put(version, time_stamp, MetadataPath(prefix), self.new(content["k"], content))

    def do_versionlist(self, label):
        p = self.key(label)
        obj, _ = self.find(p[:-1])
        obj.set_version_list(UUIDS[p[-1]], self.new(
            "vl", {"k": "vl", "v": 0, "c": {label["n"]: self.record(label)}}))

    def do_save(self, label):
        self.root.write_out(self.repo)

    def do_unget(self, label):
        p = self.key(label)
        obj, _ = self.find(p[:-1])
        self.part = self.find(p)[0]
        if label["k"] == "us":
            obj.unget_version_list(UUIDS[p[-1]])
        elif label["k"] == "ft":
            obj.unget_metadata(self.part)
        else:
            version, prefix, _ = VERSIONS[p[-1]]
            obj.unget_versioned_element(version, MetadataPath(prefix))

    def do_purge(self, label):
        self.root.purge()

    def do_load(self, label):
        if self.kind in ("us", "tvl"):
            self.root = ob.load_top(self.kind, self.repo)
        else:
            self.root = ob.stub(self.kind, self.repo, ob.reference(self.root))

    def finish(self, state):
        if self.root is None:
            return
        found, wanted = ob.probe(self.root), self.rename(state["content"])
        if not ob.same(found, wanted):
            raise Violation(f"content is {found}, expected {wanted}")


OPS = {"access", "contains", "list", "run", "file", "part", "dataset", "remove", "version",
       "versionlist", "save", "unget", "purge", "load"}


def specs(thorough, scale=1.0):
    n = 8 if thorough else 1
    base = dict(
        module="Access", invariants=["Skipped", "WayClosed"],
        properties=["OnTheWay", "OffTheWay"], adapter=AccessAdapter)

    def part(name, root, grow, most, count, steps, files=("a", "b"), datasets=("x", "y"),
             versions=("p", "q"), uuids=("u", "w"), **more):
        return dict(base, part=name, constants=dict(
            Root=root, FileNames=set(files), DatasetNames=set(datasets),
            VersionNames=set(versions), UuidNames=set(uuids), GrowTo=grow, MaxNodes=most,
            Ops=OPS, MaxLevel=1000, MaxValue=1000, Sample=True),
            options=dict(root=root), simulate=int(count * n * scale), depth=grow + 45,
            length=grow + 30, steps=int(steps * n * scale), **more)

    small = dict(base, part="small", constants=dict(
        Root="mrr", FileNames={"a"}, DatasetNames=set(), VersionNames=set(), UuidNames=set(),
        GrowTo=4, MaxNodes=5, Ops=OPS - {"contains"}, MaxLevel=14, MaxValue=5 if thorough else 4, Sample=False),
        options=dict(root="mrr"), length=30, steps=int(2500 * n * scale))
    return [
        small,
        part("uuid set", "us", 14, 24, 70, 3000),
        part("tree version list", "tvl", 14, 24, 70, 3000),
        part("large", "us", 30, 45, 25, 1500),
        part("large trees", "tvl", 30, 45, 25, 1500, versions=("p",)),
        part("file tree", "ft", 8, 14, 60, 2000),
        part("dataset tree", "dt", 12, 20, 60, 2000),
        part("version list", "vl", 10, 18, 60, 2000)]
