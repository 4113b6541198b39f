""" Adapters for FileTree.tla (P05) and DatasetTree.tla (P06) """
from uuid import UUID

import objects as ob
from behave import Adapter
from core import Raw, Violation

from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.filetree import FileTree
from dataladmetadatamodel.metadata import Metadata
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.mtreenode import MTreeNode
from dataladmetadatamodel.text import Text

# names for the names of the specification
NAMES = [
    ("a", "b", "c"), ("a", "aa", "aaa"), ("a", "a.b", "a-b"), ("x", "x y", " "),
    ("b", "B", "bb"), (".a", "..a", "a."), ("é", "e\u0301", "e"), ("0", "00", "1"),
    ("dir", "dir ", "di")]


class TreeAdapter(Adapter):
    names = NAMES

    def __init__(self, env, options, rng):
        super().__init__(env, options, rng)
        self.repo = env.repo(self.base / "r")
        self.alphabet = options["names"]
        self.map = {n: f"n{i}" for i, n in enumerate(self.alphabet)}
        self.map.update(zip(self.alphabet, rng.choice(self.names)))
        self.back = {v: k for k, v in self.map.items()}
        # A name of the specification may also stand for a path of several elements:
        # the first of them is the name, the others belong to it
        self.stretch = rng.choice([1, 1, 1, 1, 2, 6])
        self.tails = {
            n: [rng.choice(list(self.map.values())) for _ in range(self.stretch - 1)]
            for n in self.alphabet}
        self.paths = [()]
        for _ in range(options["depth"] + 1):
            self.paths += [
                p + (n,) for p in self.paths if len(p) == len(self.paths[-1])
                for n in self.alphabet]
        self.paths = sorted(set(self.paths), key=lambda p: (len(p), p))
        self.tree = self.new()

    def path(self, p):
        names = [x for n in p for x in (self.map[n], *self.tails[n])]
        if self.rng.random() < 0.5:
            return MetadataPath("/".join(names))
        return MetadataPath(*names)

    def back_path(self, path):
        result = tuple(self.back.get(n, f"?{n}") for n in path.parts[::self.stretch])
        if path.parts != tuple(x for n in result for x in (
                self.map.get(n, n), *self.tails.get(n, ()))):
            return (f"?{path.parts}",)
        return result

    def settle(self, obj, new):
        """ an object with a random life before it is used """
        how = self.rng.randrange(5)
        if how >= 1:
            pass
        if how == 2:
            obj.write_out(self.repo)
        if how >= 3:
            obj.write_out(self.repo)
            if how == 3:
                obj.purge()
            else:
                obj = new(ob.reference(obj))
        return obj

    def reload(self, how, p):
        self.tree.write_out(self.repo)
        if how == "unload":
            self.tree.purge()
        else:
            self.tree = self.stub(ob.reference(self.tree))
            if how == "partly":
                self.node.get_object_at_path(self.full(p))

    def do_reload(self, label):
        self.reload(label["how"], label["p"])

    def do_save(self, label):
        self.tree.write_out(self.repo)

    @property
    def node(self):
        return ob.tree(self.tree)

    def observe(self, state, label):
        # Do not load everything after each step: what is partly loaded
        # has to behave in the same way.
        if self.rng.random() < 0.35:
            some = self.rng.sample(self.paths, 4)
            if label.get("p"):
                some.append(tuple(label["p"]))
            self.look_up(state, some)
        if self.rng.random() < 0.35:
            self.listing(state)

    def finish(self, state):
        self.look_up(state, self.paths)
        self.listing(state)
        self.reload("new", None)
        used = {tuple(p[:n]) for p, _ in state["l"] for n in range(1, len(p) + self.own)}
        state = dict(state, d=[list(p) for p in used])
        self.listing(state)
        self.look_up(state, self.paths)


class FileTreeAdapter(TreeAdapter):
    own = 0

    def new(self):
        if self.options["kind"] == "ft":
            return FileTree()
        return MTreeNode(Text)

    def stub(self, reference):
        return ob.stub(
            "ft" if self.options["kind"] == "ft" else "n", self.repo, reference, leaf="tx")

    def full(self, p):
        return self.path(p)

    def leaf(self, value):
        if self.options["kind"] == "ft":
            metadata = Metadata()
            ob.run_metadata(metadata, value)
            return self.settle(metadata, lambda r: ob.stub("md", self.repo, r))
        return self.settle(Text(ob.text_of(value)), lambda r: ob.stub("tx", self.repo, r))

    def directory(self, p):
        """ sometimes the directory that contains p, loaded or not """
        if p and self.stretch == 1 and self.rng.random() < 0.3:
            found = self.node if len(p) == 1 else self.node.get_object_at_path(self.path(p[:-1]))
            if isinstance(found, MTreeNode):
                return found
        return None

    def do_add(self, label):
        directory = self.directory(label["p"])
        path, leaf = self.path(label["p"]), self.leaf(label["v"])
        if directory is not None:
            directory.add_child(path.parts[-1], leaf)
        elif self.options["kind"] == "ft":
            self.tree.add_metadata(path, leaf)
        else:
            self.tree.add_child_at(leaf, path)

    def do_run(self, label):
        if self.rng.random() < 0.3:
            # what is listed is part of the tree
            listed = self.tree.get_paths_recursive(self.rng.random() < 0.5)
            for path, node in listed if self.rng.random() < 0.5 else list(listed):
                if path == self.path(label["p"]) and not isinstance(node, MTreeNode):
                    ob.run_metadata(node, label["v"])
                    return
        ob.run_at(self.tree, self.path(label["p"]), label["v"])

    def do_sub(self, label):
        node = MTreeNode(Metadata if self.options["kind"] == "ft" else Text)
        for p, v in label["s"]:
            node.add_child_at(self.leaf(v), self.path(p))
        node = self.settle(node, lambda r: ob.stub(
            "n", self.repo, r, leaf="md" if self.options["kind"] == "ft" else "tx"))
        directory = self.directory(label["p"])
        if directory is not None:
            directory.add_child(self.map[label["p"][-1]], node)
        else:
            self.node.add_child_at(node, self.path(label["p"]))

    def do_remove(self, label):
        directory = self.directory(label["p"])
        if directory is not None:
            directory.remove_child(self.map[label["p"][-1]])
        else:
            self.node.remove_child_at(self.path(label["p"]))

    def value(self, node):
        return ob.probe(node)["v"]

    def look_up(self, state, paths):
        leaves = {tuple(p): v for p, v in state["l"]}
        dirs = {tuple(p) for p in state["d"]} | {()}
        for p in paths:
            path = self.path(p)
            directory = self.directory(p)
            if directory is not None and self.rng.random() < 0.5:
                name = self.map[p[-1]]
                view = self.rng.choice([
                    directory.contains_child, lambda n: MetadataPath(n) in directory,
                    lambda n: directory.contains_child(MetadataPath(n))])
                if view(name) != (p in leaves or p in dirs):
                    raise Violation(f"{p} in its directory: {view(name)}")
            found = self.node.get_object_at_path(path) if directory is None else (
                directory.get_child(self.map[p[-1]]))
            kind = "dir" if isinstance(found, MTreeNode) else "no" if found is None else "entry"
            expected = "entry" if p in leaves else "dir" if p in dirs else "no"
            if kind != expected:
                raise Violation(f"look-up of {p} finds {kind}, expected {expected}")
            if kind == "entry" and self.value(found) != leaves[p]:
                raise Violation(f"{p} has content {self.value(found)}, expected {leaves[p]}")
            if expected != "dir" and (path in self.tree) != (expected == "entry") and p:
                if self.options["kind"] == "ft" or len(path) == 1:
                    raise Violation(f"{p} in tree: {path in self.tree}")
            if self.options["kind"] == "ft" and expected != "dir":
                metadata = self.tree.get_metadata(path)
                if (metadata is None) != (expected == "no") or (
                        metadata is not None and self.value(metadata) != leaves[p]):
                    raise Violation(f"get_metadata of {p} returns {metadata}")

    def listing(self, state):
        leaves = {tuple(p): v for p, v in state["l"]}
        dirs = {tuple(p) for p in state["d"]} | {()}
        listed = [self.back_path(p) for p, _ in self.tree.get_paths_recursive()]
        if sorted(listed) != sorted(leaves):
            raise Violation(f"listed {sorted(listed)}, expected {sorted(leaves)}")
        both = [
            self.back_path(p) for p, _ in self.tree.get_paths_recursive(True)
            if len(p) % self.stretch == 0]
        if sorted(both) != sorted([*leaves, *dirs]):
            raise Violation(
                f"listed with directories {sorted(both)}, expected {sorted([*leaves, *dirs])}")
        if self.rng.random() < 0.3:
            for path, node in self.tree.get_paths_recursive():
                if self.value(node) != leaves[self.back_path(path)]:
                    raise Violation(f"listed {path} with content {self.value(node)}")


class DatasetTreeAdapter(TreeAdapter):
    own = 1

    def new(self):
        return DatasetTree()

    def stub(self, reference):
        return ob.stub("dt", self.repo, reference)

    def full(self, p):
        return MetadataPath(self.path(p), ob.ROOT_RECORD)

    def record(self, value):
        metadata = Metadata()
        ob.run_metadata(metadata, value)
        tree = FileTree()
        tree.add_metadata(MetadataPath(f"f{value}"), metadata)
        choice = self.rng.randrange(4)
        # the identifier or the version of a dataset may be unknown
        dataset = self.rng.choice([
            (UUID(int=value), f"v{value}"), (None, f"w{value}"), (UUID(int=value + 1000), None)])
        mrr = MetadataRootRecord(
            *dataset, metadata if choice & 1 else None, tree if choice & 2 else None)
        return self.settle(mrr, lambda r: ob.stub("mrr", self.repo, r))

    def value(self, mrr):
        mrr.ensure_mapped()
        dataset = mrr.dataset_identifier, mrr.dataset_version
        if dataset[1] is None:
            number = getattr(dataset[0], "int", 0) - 1000
            expected = UUID(int=number + 1000), None
        else:
            number = int(dataset[1][1:])
            expected = (UUID(int=number) if dataset[1][0] == "v" else None), dataset[1]
        return number if dataset == expected else f"?{dataset}"

    def do_add(self, label):
        self.tree.add_dataset(self.path(label["p"]), self.record(label["v"]))

    def do_sub(self, label):
        tree = DatasetTree()
        for p, v in label["s"]:
            tree.add_dataset(self.path(p), self.record(v))
        tree = self.settle(tree, lambda r: ob.stub("dt", self.repo, r))
        self.tree.add_subtree(tree, self.path(label["p"]))

    def do_delete(self, label):
        self.tree.delete_subtree(self.path(label["p"]))

    def look_up(self, state, paths):
        datasets = {tuple(p): v for p, v in state["l"]}
        for p in paths:
            path = self.path(p)
            if (path in self.tree) != (p in datasets):
                raise Violation(f"{p} in tree: {path in self.tree}")
            mrr = self.tree.get_metadata_root_record(path)
            found = None if mrr is None else self.value(mrr)
            if found != datasets.get(p):
                raise Violation(f"dataset at {p}: {found}, expected {datasets.get(p)}")

    def listing(self, state):
        datasets = {tuple(p): v for p, v in state["l"]}
        listed = [(self.back_path(p), mrr) for p, mrr in self.tree.dataset_paths]
        if sorted(p for p, _ in listed) != sorted(datasets):
            raise Violation(
                f"listed datasets {sorted(p for p, _ in listed)}, expected {sorted(datasets)}")
        if self.rng.random() < 0.3:
            for p, mrr in listed:
                if self.value(mrr) != datasets[p]:
                    raise Violation(f"listed {p} as {self.value(mrr)}, not {datasets[p]}")


# --------------------------------------------------------------------------
# Parts of checks
# --------------------------------------------------------------------------
MANY = "abcdefghijklmnopqrst"
FT_OPS = {"add", "run", "sub", "remove", "save", "reload"}
FT_SUBS = Raw('{[p \\in {} |-> 1], (<<"a">> :> 1), ((<<"a">> :> 1) @@ (<<"b">> :> 2)), '
              '((<<"b">> :> 2) @@ (<<"a", "b">> :> 1))}')
DT_OPS = {"add", "sub", "delete", "save", "reload"}
DT_SUBS = Raw('{(<<>> :> 1), (<<"a">> :> 1), ((<<>> :> 2) @@ (<<"b">> :> 1)), '
              '((<<"a">> :> 2) @@ (<<"a", "b">> :> 1))}')


def file_tree_specs(thorough, scale=1.0, kinds=("ft", "nt")):
    specs = []
    n = 8 if thorough else 1
    for kind in kinds:
        ops = FT_OPS if kind == "ft" else FT_OPS - {"run"}
        consts = dict(Names={"a", "b"}, Depth=2, Vals={1, 2}, Subs=FT_SUBS, MaxLevel=1000, Ops=ops)
        specs.append(dict(
            part=f"{kind} closed", module="FileTree", constants=consts,
            invariants=["TypeOK", "WellFormed"], properties=["Frame"],
            adapter=FileTreeAdapter, options=dict(kind=kind, names="ab", depth=2),
            length=40, steps=None if thorough and scale > 1 else int(2000 * n * scale)))
        specs.append(dict(
            part=f"{kind} deep", module="FileTree",
            constants=dict(consts, Names={"a", "b", "c"}, Depth=3),
            simulate=int(20 * n * scale), depth=50, adapter=FileTreeAdapter,
            options=dict(kind=kind, names="abc", depth=3), length=50,
            steps=int(800 * n * scale)))
        specs.append(dict(
            part=f"{kind} wide", module="FileTree",
            constants=dict(consts, Names=set(MANY), Depth=1, Ops=ops - {"sub", "remove"}),
            simulate=int(3 * n * scale), depth=60, adapter=FileTreeAdapter,
            options=dict(kind=kind, names=MANY, depth=0), length=60,
            steps=int(150 * n * scale)))
    return specs


def dataset_tree_specs(thorough, scale=1.0):
    n = 8 if thorough else 1
    consts = dict(Names={"a", "b"}, Depth=2, Vals={1}, Subs=DT_SUBS, MaxLevel=1000, Ops=DT_OPS)
    return [
        dict(
            part="dt closed", module="DatasetTree", constants=consts,
            invariants=["WellFormed"], properties=["Frame"],
            adapter=DatasetTreeAdapter, options=dict(names="ab", depth=2),
            length=40, steps=None if thorough and scale > 1 else int(1800 * n * scale)),
        dict(
            part="dt deep", module="DatasetTree",
            constants=dict(consts, Names={"a", "b", "c"}, Depth=3, Vals={1, 2}),
            simulate=int(25 * n * scale), depth=50, adapter=DatasetTreeAdapter,
            options=dict(names="abc", depth=3), length=50, steps=int(1000 * n * scale)),
        dict(
            part="dt wide", module="DatasetTree",
            constants=dict(consts, Names=set(MANY), Depth=1, Ops=DT_OPS - {"sub", "delete"}),
            simulate=int(3 * n * scale), depth=60, adapter=DatasetTreeAdapter,
            options=dict(names=MANY, depth=0), length=60, steps=int(150 * n * scale))]
