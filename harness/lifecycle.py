"""
Replay of the behaviours of Lifecycle.tla on the code under test.
"""
import json
import os
import random
from pathlib import Path

import core
import objects as ob
from core import Violation
from graph import Graph
from objects import MetadataPath

OPS = ["get", "set", "add", "del", "write", "purge", "unget", "list", "sweep", "force",
       "copy", "reopen"]
INVARIANTS = ["SavedTruth", "Loadable", "RealmKnown", "GcSafe", "RegStored", "EntryComplete"]
PROPERTIES = ["WriteComplete", "Transparent", "PurgeRefusal", "Idempotent",
              "ReadingKeepsSaved"]
ALL_FIXES = {"sub", "reset", "purge", "parts"}


def constants(skel, start, level, ops=OPS, realms=("A", "B"), vals=(1, 2), fix=ALL_FIXES,
              ends=True):
    return dict(Ends=ends,
                Realms=set(realms), Vals=set(vals), Skel=skel, Start=start,
                MaxLevel=level, Ops=set(ops), Fix=set(fix))


def check_model(check, part, skel, start, level, **kw):
    return check.model(
        part, "Lifecycle", constants(skel, start, level, **kw),
        constraints=["Bound"], invariants=INVARIANTS, properties=PROPERTIES)


def make_graph(check, part, skel, start, level, simulate=None, depth=30, **kw):
    """
    State graph of all behaviours up to a level, or of `simulate` random
    behaviours and their alternatives.
    """
    graph = Graph()
    extra = []
    if simulate:
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth),
                 "-seed", str(check.seed)]
    result = core.run_tlc(
        check.env, "Lifecycle", constants(skel, start, level, **kw),
        constraints=["Bound", "Edge0"], invariants=INVARIANTS, properties=[],
        action_constraints=["EmitEdge"], view="GenView", workers=1,
        on_line=graph.feed, defs=["Edge0 == EmitState"], extra=extra)
    if result.error or result.returncode or not (result.ok or simulate):
        check.model_error(part, result)
    graph.done()
    check.coverage["states"] += len(graph.states) if simulate else result.distinct
    check.coverage["transitions"] += graph.n_edges if simulate else result.states
    check.add(part, graph_states=len(graph.states), graph_transitions=graph.n_edges,
              tlc_wall_s=round(result.wall, 1))
    return graph


def label_path(p):
    return list(p) if isinstance(p, list) else []


class Replay:
    """ One behaviour on the real code """

    def __init__(self, env, kind, leaf, seed, options):
        self.env = env
        self.kind, self.leaf = kind, leaf
        self.rng = random.Random(seed)
        ob.set_style(self.rng)
        self.options = options
        base = env.mkdir("walk")
        self.base = base
        self.realms = {}
        for name in options["realms"]:
            self.realms[name] = env.repo(base / name)
        self.names = {v: k for k, v in self.realms.items()}
        self.root = None
        self.guaranteed = {}        # (realm name, location) -> content
        self.entry_content = {}
        self.log = []

    # -- content of the model -------------------------------------------
    def content_at(self, content, path):
        for name in path:
            content = content["c"][name]
        return content

    def mem_kind(self, path):
        """ kind of the object at path, as the specification names it """
        return self.kind_of(self.at(path))

    def kind_of(self, obj):
        for kind, cls in (("tvl", ob.TreeVersionList), ("vl", ob.VersionList),
                          ("us", ob.UUIDSet), ("mrr", ob.MetadataRootRecord),
                          ("md", ob.Metadata), ("tx", ob.Text), ("ft", ob.FileTree),
                          ("dt", ob.DatasetTree), ("n", ob.MTreeNode)):
            if type(obj) is cls:
                return kind
        raise Violation(f"object of unexpected class {type(obj).__name__}")

    # -- navigation ------------------------------------------------------
    def start(self, state, start):
        content = state["c"]
        if start == "new":
            self.root = ob.build(self.kind, content, leaf=self.leaf)
        else:
            realm = self.realms["A"]
            obj = ob.build(self.kind, content, leaf=self.leaf)
            reference = obj.write_out(realm)
            if self.kind in ("ft", "dt"):
                self.guaranteed[("A", reference.location)] = content
            self.open(realm, reference)

    def open(self, realm, reference):
        if self.kind in ("tvl", "us"):
            self.root = ob.load_top(self.kind, realm)
            if self.root is None:
                raise Violation("no top-level object found after it was written")
            self.root.purge()
        else:
            self.root = ob.stub(self.kind, realm, reference, self.leaf)

    def child(self, obj, name, loaded):
        """ Part of a loaded object, without loading the part (unless it is) """
        if isinstance(obj, (ob.FileTree, ob.DatasetTree, ob.MTreeNode)):
            name = ob.ROOT_RECORD if name == "R" else name
            result = ob.tree(obj).get_object_at_path(MetadataPath(name))
        elif isinstance(obj, ob.MetadataRootRecord):
            if name == "M":
                result = obj.dataset_level_metadata
            else:
                result = obj.get_file_tree()
                if result is not None and not loaded:
                    result.purge()
        elif isinstance(obj, ob.VersionList):
            version, prefix, _ = ob.VERSIONS[name]
            result = None
            for v, (_, p, element) in obj.versioned_elements:
                if (v, str(p)) == (version, prefix):
                    result = element
        elif isinstance(obj, ob.UUIDSet):
            result = obj.get_version_list(ob.UUIDS[name])
            if result is not None and not loaded:
                result.purge()
        else:
            raise core.MachineryError(f"no parts: {obj}")
        if result is None:
            raise Violation(f"part {name} of {type(obj).__name__} is missing")
        return result

    def at(self, path):
        obj = self.root
        for i, name in enumerate(path):
            obj = self.child(obj, name, self.loaded.get(tuple(path[:i + 1]), False))
        return obj

    def load(self, path):
        """ Load everything down to path with ordinary read access """
        obj = self.root
        i = 0
        while True:
            # look-up with a longer path
            rest = path[i:]
            if isinstance(obj, ob.FileTree) and rest and self.rng.random() < 0.5:
                target = ob.tree(obj).get_object_at_path(MetadataPath("/".join(rest)))
                if isinstance(target, ob.Metadata):
                    target = obj.get_metadata(MetadataPath("/".join(rest)))
                elif target is not None:
                    target.ensure_mapped()
                if target is None:
                    raise Violation(f"nothing found at {rest}")
                return target
            if isinstance(obj, ob.DatasetTree) and rest and rest[-1] == "R" \
                    and self.rng.random() < 0.5:
                target = obj.get_metadata_root_record(MetadataPath("/".join(rest[:-1])))
                if target is None:
                    raise Violation(f"no dataset found at {rest}")
                return target
            way = self.rng.random()
            if way < 0.3 or i == len(path) and way < 0.6:
                obj.ensure_mapped()
            elif way < 0.6 or i == len(path):
                obj.read_in()
            if i == len(path):
                return obj
            name = path[i]
            if isinstance(obj, ob.MetadataRootRecord):
                obj = obj.get_dataset_level_metadata() if name == "M" else (
                    obj.get_file_tree() if self.rng.random() < 0.5 else obj.file_tree)
            elif isinstance(obj, ob.VersionList):
                version, prefix, time_stamp = ob.VERSIONS[name]
                got = obj.get_versioned_element(version, MetadataPath(prefix))
                if (got[0], str(got[1])) != (time_stamp, prefix):
                    raise Violation(f"wrong version record: {got[:2]}")
                obj = got[2]
            elif isinstance(obj, ob.UUIDSet):
                obj = obj.get_version_list(ob.UUIDS[name])
            else:
                obj = self.child(obj, name, True)
            if obj is None:
                raise Violation(f"part {name} is missing")
            i += 1

    def load_for_change(self, path):
        """ Methods that change an object load it, if that is necessary """
        if not path:
            obj = self.root
        else:
            self.load(path[:-1])
            self.set_loaded(path[:-1])
            obj = self.at(path)
        if isinstance(obj, ob.Text) or self.rng.random() < 0.5:
            obj = self.load(path)
        return obj

    def tree_owner(self, path):
        """ Longest prefix of path that is a tree object """
        for i in range(len(path), -1, -1):
            obj = self.at(path[:i])
            if isinstance(obj, (ob.FileTree, ob.DatasetTree)):
                return obj, path[i:]
        return None, None

    # -- operations --------------------------------------------------------
    def perform(self, label, before):
        """ Perform an operation, raises what the code raises """
        op = label["op"]
        path = label_path(label.get("p", []))
        realm = self.realms.get(label.get("r"))
        if self.rng.random() < 0.02:
            core.pack(self.rng.choice(sorted(self.realms.values())))
        if op == "get":
            self.load(path)
        elif op == "set":
            obj = self.load_for_change(path)
            if isinstance(obj, ob.Text):
                obj.content = ob.text_of(label['v'])
                obj.touch()
            else:
                owner = None
                if self.rng.random() < 0.4:
                    self.set_loaded(path)
                    owner, rest = self.tree_owner(path)
                if isinstance(owner, ob.FileTree) and rest:
                    ob.run_at(owner, MetadataPath("/".join(rest)), label["v"])
                else:
                    ob.run_metadata(obj, label["v"])
        elif op == "add":
            obj = self.load_for_change(path)
            self.set_loaded(path)
            self.add(obj, path, label["n"], label["k"])
        elif op == "del":
            obj = self.load(path)
            self.set_loaded(path)
            name = ob.ROOT_RECORD if label["n"] == "R" else label["n"]
            owner, rest = self.tree_owner(path)
            if owner is not None and self.rng.random() < 0.5:
                target = MetadataPath("/".join([*rest, name]))
                if isinstance(owner, ob.DatasetTree):
                    owner.delete_subtree(target)
                else:
                    owner.mtree.remove_child_at(target)
            else:
                ob.tree(obj).remove_child(name)
        elif op == "write":
            obj = self.at(path)
            kw = dict(force_write=True) if label["f"] else {}
            return obj.write_out(realm, **kw) if realm or self.rng.random() < 0.5 \
                else obj.write_out(**kw)
        elif op == "purge":
            self.at(path).purge()
        elif op == "unget":
            self.unget(path, realm)
        elif op == "list":
            self.list_all()
        elif op == "sweep":
            self.sweep(path, label["v"])
        elif op == "copy":
            return self.at(path).deepcopy(new_destination=realm)
        elif op == "reopen":
            self.open(self.root_realm(), ob.reference(self.root))
        else:
            raise core.MachineryError(f"unknown operation: {op}")

    def root_realm(self):
        return ob.tree(self.root).realm

    def set_loaded(self, path):
        for i in range(len(path) + 1):
            self.loaded[tuple(path[:i])] = True

    def add(self, obj, path, name, kind):
        fresh = self.fresh(kind)
        if isinstance(obj, (ob.FileTree, ob.MTreeNode)):
            owner, rest = self.tree_owner(path)
            if isinstance(owner, ob.FileTree) and self.rng.random() < 0.7:
                owner.add_metadata(MetadataPath("/".join([*rest, name])), fresh)
            elif self.rng.random() < 0.5:
                ob.tree(obj).add_child_at(fresh, MetadataPath(name))
            else:
                ob.tree(obj).add_child(name, fresh)
        elif isinstance(obj, ob.MetadataRootRecord):
            if name == "M":
                obj.set_dataset_level_metadata(fresh)
            elif self.rng.random() < 0.5:
                obj.set_file_tree(fresh)
            else:
                obj.file_tree = fresh
        elif isinstance(obj, ob.VersionList):
            version, prefix, time_stamp = ob.VERSIONS[name]
            if isinstance(obj, ob.TreeVersionList):
                obj.set_dataset_tree(version, time_stamp, MetadataPath(prefix), fresh)
            else:
                obj.set_versioned_element(version, time_stamp, MetadataPath(prefix), fresh)
        elif isinstance(obj, ob.UUIDSet):
            obj.set_version_list(ob.UUIDS[name], fresh)
        else:
            raise core.MachineryError(f"cannot add to {obj}")

    def fresh(self, kind):
        leaf = {"k": "md", "v": 1, "c": {}}
        mrr = {"k": "mrr", "v": 0, "c": {"M": leaf}}
        return ob.build(kind, {
            "md": leaf,
            "tx": {"k": "tx", "v": 1, "c": {}},
            "ft": {"k": "n", "v": 0, "c": {"a": leaf}},
            "mrr": mrr,
            "vl": {"k": "vl", "v": 0, "c": {"p": mrr}},
            "dt": ob.NONE}[kind], leaf=self.leaf)

    def unget(self, path, realm):
        parent = self.at(path[:-1])
        obj = self.at(path)
        if isinstance(parent, ob.UUIDSet):
            parent.unget_version_list(ob.UUIDS[path[-1]])
        elif isinstance(parent, ob.VersionList):
            version, prefix, _ = ob.VERSIONS[path[-1]]
            if isinstance(parent, ob.TreeVersionList):
                parent.unget_dataset_tree(version, MetadataPath(prefix), realm)
            else:
                parent.unget_versioned_element(version, MetadataPath(prefix), realm)
        else:
            owner, _ = self.tree_owner(path)
            (owner or ob.FileTree()).unget_metadata(obj, realm)

    def change(self, leaf, value):
        if isinstance(leaf, ob.Text):
            leaf.read_in()
            leaf.content = ob.text_of(value)
            leaf.touch()
        else:
            ob.run_metadata(leaf, value)

    def sweep(self, path, value):
        """ change a leaf that is found by listing """
        obj, rest, changed = self.root, list(path), []
        while rest:
            if isinstance(obj, (ob.FileTree, ob.MTreeNode)):
                for found, node in self.listing(obj, rest):
                    if found == "/".join(rest):
                        if self.rng.random() < 0.5:
                            changed.append(node)
                        else:
                            self.change(node, value)
                            changed.append(None)
                rest = []
            elif isinstance(obj, ob.DatasetTree):
                wanted = "/".join(rest[:rest.index("R")])
                records = [r for p, r in obj.dataset_paths if str(p) == wanted]
                obj, rest = records[0] if records else None, rest[rest.index("R") + 1:]
            elif isinstance(obj, ob.MetadataRootRecord):
                if rest[0] == "M":
                    changed.append(obj.get_dataset_level_metadata())
                    break
                obj, rest = obj.file_tree, rest[1:]
            elif isinstance(obj, ob.VersionList):
                version, prefix, _ = ob.VERSIONS[rest[0]]
                found = None
                for v, (_, p, element) in list(obj.versioned_elements):
                    if isinstance(element, ob.DatasetTree):
                        element.dataset_paths
                    if (v, str(p)) == (version, prefix):
                        found = element
                obj, rest = found, rest[1:]
            else:
                list(obj.uuids())
                obj, rest = obj.get_version_list(ob.UUIDS[rest[0]]), rest[1:]
            if obj is None:
                break
        if len(changed) != 1:
            raise Violation(f"{len(changed)} objects found at {path} by listing")
        if changed[0] is not None:
            self.change(changed[0], value)

    def listing(self, tree, rest):
        """ while or after everything is listed """
        found = ((str(p), n) for p, n in tree.get_paths_recursive(self.rng.random() < 0.5))
        return found if self.rng.random() < 0.5 else list(found)

    def list_all(self):
        root = self.root
        if isinstance(root, (ob.FileTree, ob.MTreeNode)):
            list(root.get_paths_recursive(self.rng.random() < 0.5))
            str(root)
        elif isinstance(root, ob.DatasetTree):
            root.dataset_paths
        elif isinstance(root, ob.VersionList):
            readers = [lambda: list(root.versions()), lambda: len(root),
                       lambda: list(root.versions_and_prefix_paths())]
            for reader in self.rng.sample(readers, 3):
                reader()
            for _, (_, _, element) in root.versioned_elements:
                if isinstance(element, ob.DatasetTree):
                    element.dataset_paths
        elif isinstance(root, ob.UUIDSet):
            list(root.uuids())
        elif isinstance(root, ob.Metadata):
            ob.probe(root)
        else:
            root.ensure_mapped()

    def observe_readers(self, state, where):
        """ everything that only reads leaves content and save states as they are """
        class Everything(dict):
            def get(self, key, default=None):
                return True

        def look():
            read_all(self.root)
            self.loaded = Everything()
            for flag in state["f"]:
                obj = self.at(label_path(flag["p"]))
                got = {n for n, r in self.realms.items() if obj.is_saved_on(r)}
                if got != set(flag["s"]):
                    raise Violation(
                        f"{where}: after reading, object at {label_path(flag['p'])} reports to be "
                        f"saved on {sorted(got)}, expected {sorted(flag['s'])}")
        core.in_child(look).get()

    # -- observations --------------------------------------------------------
    def observe_flags(self, state, where):
        self.loaded = {tuple(label_path(f["p"])): f["m"] for f in state["f"]}
        for flag in sorted(state["f"], key=lambda f: len(label_path(f["p"]))):
            path = label_path(flag["p"])
            obj = self.at(path)
            expected = set(flag["s"])
            got = {n for n, r in self.realms.items() if obj.is_saved_on(r)}
            if got != expected:
                raise Violation(
                    f"{where}: object at {path} reports to be saved on "
                    f"{sorted(got)}, expected {sorted(expected)}")

    def observe_content(self, state, where):
        got = core.in_child(lambda: ob.probe(self.root))
        if got.error:
            raise Violation(f"{where}: content cannot be read: {got.error}")
        if not ob.same(got.value, state["c"]):
            raise Violation(f"{where}: wrong content: {got.value}, expected: {state['c']}")

    def observe_stored(self, kind, in_dt, realm, reference, content, where, alone=False):
        """ what is stored in realm under reference """
        def look():
            hidden = []
            if alone:
                for other in self.realms.values():
                    if other != realm:
                        os.rename(other, other + ".hidden")
                        hidden.append(other)
            try:
                obj = ob.stub(kind, realm, reference, self.leaf, in_dt)
                if reference.is_none_reference():
                    return ob.NONE
                return ob.probe(obj)
            finally:
                for other in hidden:
                    os.rename(other + ".hidden", other)
        got = core.in_child(look)
        if got.error:
            raise Violation(f"{where}: {reference} cannot be loaded from {realm}: {got.error}")
        if not ob.same(got.value, content):
            raise Violation(
                f"{where}: {reference} has wrong content: {got.value}, expected: {content}")

    def observe_copy(self, kind, in_dt, realm, copy, content, path, where):
        reference = ob.reference(copy)
        self.observe_stored(kind, in_dt, realm, reference, content, where + " (copy)", alone=True)

        def independent():
            before = ob.probe(copy)
            if not ob.same(before, content):
                raise Violation(f"{where}: copy has wrong content: {before}, expected {content}")
            source = self.at(path)
            if mutate(source):
                if not ob.same(ob.probe(copy), content):
                    raise Violation(f"{where}: change of the source shows in the copy")
            changed = ob.probe(source)
            if mutate(copy) and not ob.same(ob.probe(source), changed):
                raise Violation(f"{where}: change of the copy shows in the source")
        core.in_child(independent).get()

    def gc(self, state, prune_only):
        """ flush, collect garbage, look whether everything is still there """
        from dataladmetadatamodel.mapper.gitmapper.objectreference import flush_object_references
        for name in sorted(self.realms):
            flush_object_references(Path(self.realms[name]))
        for name, realm in self.realms.items():
            if prune_only:
                core.git(realm, "prune", "--expire=now")
            else:
                core.git(realm, "gc", "-q", "--prune=now")
        for (name, location), content in self.guaranteed.items():
            self.observe_stored(
                "dt" if self.is_dataset_tree(content) else "ft", False, self.realms[name],
                ob.Reference("MTreeNode", location), content, "after garbage collection")
        for name, content in state["e"].items():
            if content["k"] not in ("-",) and self.kind in ("tvl", "us"):
                got = core.in_child(lambda: ob.probe(ob.load_top(self.kind, self.realms[name])))
                if got.error:
                    raise Violation(f"after garbage collection: entry point of {name} "
                                    f"cannot be loaded: {got.error}")
                if not ob.same(got.value, content):
                    raise Violation(f"after garbage collection: entry point of {name} has "
                                    f"wrong content: {got.value}, expected: {content}")

    @staticmethod
    def is_dataset_tree(content):
        kids = content.get("c") or {}
        return any(
            c["k"] == "mrr" or Replay.is_dataset_tree(c)
            for c in (kids.values() if isinstance(kids, dict) else []))

    # -- the walk --------------------------------------------------------------
    def run(self, graph, start, steps, how):
        state = graph.state(start)
        self.loaded = {}
        self.start(state, how)
        self.observe_flags(state, "at the start")
        depth = self.options.get("depth", 0.3)
        ended = False
        for number, (label_text, target) in enumerate(steps):
            label = json.loads(label_text)
            before, state = state, graph.state(target)
            where = f"step {number + 1} {label_text}"
            self.log.append(label_text)
            op, path = label["op"], label_path(label.get("p", []))
            kind = in_dt = old_reference = None
            if op in ("write", "copy"):
                obj = self.at(path)
                kind = self.kind_of(obj)
                in_dt = any(isinstance(self.at(path[:i]), ob.DatasetTree)
                            for i in range(len(path)))
                old_reference = ob.reference(obj)
            try:
                result, error = self.perform(label, before), None
            except Violation:
                raise
            except Exception as e:
                result, error = None, e
            if (error is None) != label["ok"]:
                raise Violation(
                    f"{where}: " + (
                        f"failed with {error!r}, expected success" if error is not None
                        else "succeeded, expected an error"))
            ended = state["mode"] == "end"
            if ended:
                # partially performed, only the content is known
                self.observe_content(state, where)
                break
            self.observe_flags(state, where)
            if error is None and op == "write":
                content = self.content_at(before["c"], path) \
                    if self.exists(before["c"], path) else ob.NONE
                # a forced write of a root record drops an empty file tree
                if label["was"] and not label["f"] and old_reference is not None and (
                        result.location != old_reference.location):
                    # entry points are replaced by references to objects
                    if not old_reference.location.startswith("refs/"):
                        raise Violation(
                            f"{where}: new reference {result} for an unchanged object, "
                            f"was {old_reference}")
                name = label["d"]
                if not label["was"] or self.rng.random() < depth:
                    self.observe_stored(kind, in_dt, self.realms[name], result, content, where)
                if kind in ("ft", "dt") and not result.is_none_reference():
                    self.guaranteed[(name, result.location)] = content
            if op == "copy":
                content = self.content_at(before["c"], path) \
                    if self.exists(before["c"], path) else ob.NONE
                self.observe_copy(
                    kind, in_dt, self.realms[label["r"]], result, content, path, where)
                if kind in ("ft", "dt") and not ob.reference(result).is_none_reference():
                    self.guaranteed[(label["r"], ob.reference(result).location)] = content
            if self.rng.random() < depth:
                self.observe_content(state, where)
            if self.rng.random() < self.options.get("readers", 0):
                self.observe_readers(state, where)
        if not ended:
            self.observe_content(state, "at the end")
            gc = self.options.get("gc", 0.25)
            if self.rng.random() < gc:
                self.gc(state, self.rng.random() < 0.7)

    @staticmethod
    def exists(content, path):
        for name in path:
            kids = content.get("c") or {}
            if not isinstance(kids, dict) or name not in kids:
                return False
            content = kids[name]
        return True


def read_all(obj):
    """ use every method that gives information """
    if isinstance(obj, ob.Metadata):
        obj.to_json()
        list(obj.extractors)
        for name, _ in list(obj.extractor_runs):
            runs = obj.extractor_runs_for_extractor(name)
            runs.instances, runs.configurations, runs.to_json_str()
            for configuration in runs.configurations:
                runs.get_instance_for_configuration(configuration)
    elif isinstance(obj, (ob.FileTree, ob.DatasetTree, ob.MTreeNode)):
        str(obj)
        for path, node in list(obj.get_paths_recursive(True)):
            path in obj
            if isinstance(node, ob.MTreeNode):
                continue
            if isinstance(obj, ob.FileTree):
                node = obj.get_metadata(path)
            elif isinstance(obj, ob.DatasetTree):
                node = obj.get_metadata_root_record(MetadataPath(*path.parts[:-1]))
            else:
                obj.contains_child(str(path))
                node = obj.get_object_at_path(path)
            read_all(node)
        if isinstance(obj, ob.DatasetTree):
            obj.dataset_paths
    elif isinstance(obj, ob.MetadataRootRecord):
        for part in (obj.get_dataset_level_metadata(), obj.get_file_tree(), obj.file_tree):
            if part is not None:
                read_all(part)
    elif isinstance(obj, ob.VersionList):
        len(obj), list(obj.versions_and_prefix_paths()), list(obj.versioned_elements)
        for version in list(obj.versions()):
            list(obj.get_versioned_elements(version))
            if isinstance(obj, ob.TreeVersionList):
                list(obj.get_dataset_trees(version))
        for version, prefix in list(obj.versions_and_prefix_paths()):
            if isinstance(obj, ob.TreeVersionList):
                read_all(obj.get_dataset_tree(version, prefix)[2])
            read_all(obj.get_versioned_element(version, prefix)[2])
    elif isinstance(obj, ob.UUIDSet):
        for uuid in list(obj.uuids()):
            read_all(obj.get_version_list(uuid))


def mutate(obj, depth=0):
    """ Change some leaf of an object; False if there is none """
    obj.ensure_mapped()
    if isinstance(obj, ob.Metadata):
        ob.run_metadata(obj, 99)
        return True
    if isinstance(obj, ob.Text):
        obj.content = ob.text_of(99)
        obj.touch()
        return True
    if isinstance(obj, (ob.FileTree, ob.DatasetTree, ob.MTreeNode)):
        node = ob.tree(obj)
        names = [p for p, _ in node.get_paths_recursive(True) if len(p) == 1]
        return any([mutate(node.get_object_at_path(p)) for p in names])
    if isinstance(obj, ob.MetadataRootRecord):
        return any([mutate(x) for x in (obj.get_dataset_level_metadata(), obj.get_file_tree())
                    if x is not None])
    if isinstance(obj, ob.VersionList):
        return any([mutate(obj.get_versioned_element(v, p)[2])
                    for v, p in list(obj.versions_and_prefix_paths())])
    if isinstance(obj, ob.UUIDSet):
        return any([mutate(obj.get_version_list(u)) for u in list(obj.uuids())])
    return False


ROOT_KIND = {"ft": "ft", "ft2": "ft", "nt": "n", "md": "md", "mrr": "mrr", "vl": "vl",
             "us": "us", "us0": "us", "us1": "us",
             "tvl": "tvl", "tv0": "tvl", "tvn": "tvl"}


def part_name(spec):
    kw = spec.get("kw", {})
    name = f"replay {spec['skel']}/{spec['start']}/" + (
        f"random{spec['simulate']}" if spec.get("simulate") else f"level{spec['level']}")
    if kw.get("realms"):
        name += "/" + "".join(kw["realms"])
    if kw.get("ops"):
        name += "/" + "+".join(kw["ops"])
    if kw.get("ends") is False:
        name += "/no-ends"
    return name


def replay_parts(check, specs, deadline=None, options=None):
    """
    Generate behaviours of several configurations, and replay them.
    specs: list of dicts with keys
      skel, start, level, simulate, depth, kw (constants), length, steps, weight
    """
    import shutil
    from concurrent.futures import ThreadPoolExecutor

    def generate(spec):
        return make_graph(
            check, part_name(spec), spec["skel"], spec["start"], spec.get("level", 100),
            simulate=spec.get("simulate"), depth=spec.get("depth", 30), **spec.get("kw", {}))

    with ThreadPoolExecutor(max(2, core.NPROC - 1)) as pool:
        graphs = list(pool.map(generate, specs))
    items = []
    for number, (spec, graph) in enumerate(zip(specs, graphs)):
        part = part_name(spec)
        walks = list(graph.walks(
            random.Random(f"{check.seed}-{part}"), spec.get("length", 30),
            max_steps=spec.get("steps"), weight=spec.get("weight")))
        check.add(part, walks_planned=len(walks))
        if walks:
            longest = max(walks[:20], key=lambda w: len(w[1]))
            check.sample({"part": part, "walk": [json.loads(x[0]) for x in longest[1][:8]]})
        items.extend((number, index, walk) for index, walk in enumerate(walks))
    random.Random(check.seed).shuffle(items)
    base_options = dict(options or {})

    def work(item):
        number, index, (state, steps) = item
        spec, graph = specs[number], graphs[number]
        realms = sorted(spec.get("kw", {}).get("realms", ("A", "B")))
        replay = Replay(check.env, ROOT_KIND[spec["skel"]],
                        "tx" if spec["skel"] == "nt" else "md",
                        f"{check.seed}-{index}",
                        dict(base_options, **spec.get("options", {}), realms=realms))
        try:
            replay.run(graph, state, steps, spec["start"])
        except Violation as e:
            e.data.update(walk=replay.log, start=graph.state(state)["c"],
                          skel=spec["skel"], how=spec["start"])
            raise
        finally:
            shutil.rmtree(replay.base, ignore_errors=True)
        return number, len(steps)

    results = check.run("replay", work, items, deadline=deadline)
    for number, count in results:
        check.add(part_name(specs[number]), walks=1, steps=count)
    return results
