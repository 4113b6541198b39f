""" Adapter for KeyMap.tla: version lists, tree version lists and UUID sets """
from uuid import UUID

import objects as ob
from behave import Adapter
from core import Raw, Violation, git, refs, tla

from dataladmetadatamodel.common import get_top_level_metadata_objects
from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.metadata import Metadata
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.uuidset import UUIDSet
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList, VersionRecord

VERSIONS = [("v1", "v2", "v3"), ("1" * 40, "2" * 40, "unknown"), ("v", "v1", "v11"),
            ("a/b", "a", "b"), ("é ", "'\"", "\\"), ("0", "00", "")]
PREFIXES = [("a", "b"), ("a", "aa"), ("x y", "ä"), (".d", "d."), ("\\", "'\"")]
STAMPS = [("1.5", "2.5"), ("1647435123.0012", "1647435123.0013"), ("", "0"), ("2", "1")]
UUIDS = [(0x10, 0x11, 0x12), (1 << 100, (1 << 100) + 1, 1 << 120),
         (0, (1 << 128) - 1, 0xabcdef << 64)]


def constants(keys, kinds=("M", "D"), shifts=True, unget_new=True, ops=None, values=2,
              level=1000):
    """ keys: list of (version, prefix) with prefix a tuple """
    def shift(p):
        table = {k: (k[0], tuple(p) + k[1]) for k in keys}
        pairs = [f"{tla(k)} :> {tla(n)}" for k, n in table.items() if n in keys]
        return "(" + " @@ ".join(pairs) + ")" if pairs else "[x \\in {} |-> 0]"
    names = sorted({k[1] for k in keys}) if shifts else [()]
    table = " @@ ".join(f"({tla(p)} :> {shift(p)})" for p in names)
    ops = ops or {"set", "restamp", "change", "get", "unget", "save", "reload", "copy"}
    return dict(
        Keys=set(keys), Stamps={1, 2} if shifts else {1}, Vals={
            (k, v) for k in kinds for v in range(1, values + 1)},
        Shifts=Raw(table), UngetNew=unget_new, Ops=ops, MaxLevel=level)


class KeyMapAdapter(Adapter):
    def __init__(self, env, options, rng):
        super().__init__(env, options, rng)
        self.repos = [env.repo(self.base / "A"), env.repo(self.base / "B")]
        self.repo = self.repos[0]
        self.stamp = dict(zip((1, 2), rng.choice(STAMPS)))
        self.stamp_back = {v: k for k, v in self.stamp.items()}
        self.version = {n: f"m{n}" for n in MANY}
        self.version.update(zip("123", rng.choice(VERSIONS)))
        self.prefix = dict(zip(("a", "b"), rng.choice(PREFIXES)))
        self.obj = self.cls()
        self.sources = []

    def settle(self, obj, new):
        how = self.rng.randrange(4)
        if how:
            obj.write_out(self.repo)
        if how == 2:
            obj.purge()
        if how == 3:
            obj = new(ob.reference(obj))
        return obj

    def do_set(self, label):
        self.put(label["k"], label["t"], self.element(label["e"]))

    def do_save(self, label):
        if self.rng.random() < 0.3:
            # an object that is created with the same entries from the start
            self.obj = self.created(self.obj)
        self.obj.write_out(self.repo)

    def do_reload(self, label):
        self.obj.write_out(self.repo)
        if label["how"] == "unload":
            self.obj.purge()
        else:
            if self.top and self.rng.random() < 0.7:
                self.obj = get_top_level_metadata_objects("git", self.repo)[
                    0 if self.top == "tvl" else 1]
            else:
                self.obj = self.cls(realm=self.repo, reference=self.obj.reference)
            if label["how"] == "partly":
                for key in list(self.keys())[:1]:
                    self.get(key)

    def get(self, key):
        return self.element_at(key)[1]

    def do_copy(self, label):
        source = self.obj
        other = self.repos[1 - self.repos.index(self.repo)]
        before = self.tell(source) if self.rng.random() < 0.5 else None
        kwargs = {}
        if label["p"] or self.rng.random() < 0.3:
            kwargs["path_prefix"] = MetadataPath(*[self.prefix[n] for n in label["p"]])
        self.obj = source.deepcopy(new_destination=other, **kwargs)
        self.sources.append((source, before))
        self.repo = other

    def tell(self, obj):
        """ content of an object without the help of the specification """
        return ob.canonical(ob.probe(obj)) if obj is not None else None

    def check_all(self, state):
        expected = {self.key(k): (self.stamp[t], tuple(e)) for k, t, e in state["m"]}
        self.check_map(expected)

    def observe(self, state, label):
        if self.rng.random() < 0.4:
            self.check_all(state)

    def finish(self, state):
        for source, before in self.sources:
            if before is not None and self.tell(source) != before:
                raise Violation("the source of a copy has changed")
        self.check_all(state)
        self.do_reload(dict(how="new"))
        self.check_all(state)
        self.do_reload(dict(how="unload"))
        self.check_all(state)


class VersionListAdapter(KeyMapAdapter):
    @property
    def cls(self):
        return TreeVersionList if self.options["kind"] == "tvl" else VersionList

    @property
    def top(self):
        return "tvl" if self.options["kind"] == "tvl" else None

    def key(self, k):
        return self.version[k[0]], MetadataPath(*[self.prefix[n] for n in k[1]])

    def keys(self):
        return self.obj.versions_and_prefix_paths()

    def element(self, e):
        kind, value = e
        metadata = Metadata()
        ob.run_metadata(metadata, value)
        mrr = MetadataRootRecord(UUID(int=5), "d", metadata, None)
        if kind == "M":
            return self.settle(
                mrr, lambda r: MetadataRootRecord.get_empty_instance(self.repo, r))
        tree = DatasetTree()
        tree.add_dataset(MetadataPath("s/t"), mrr)
        return self.settle(tree, lambda r: DatasetTree(realm=self.repo, reference=r))

    def record(self, element):
        if isinstance(element, DatasetTree):
            return element.get_metadata_root_record(MetadataPath("s/t"))
        return element

    def value(self, element):
        kind = "D" if isinstance(element, DatasetTree) else "M"
        mrr = self.record(element)
        return kind, ob.probe(mrr.get_dataset_level_metadata())["v"] if mrr else None

    def created(self, obj):
        entries = {}
        for version, (stamp, prefix, element) in obj.versioned_elements:
            entries.setdefault(version, {})[prefix] = VersionRecord(stamp, prefix, element)
        return self.cls(entries)

    def put(self, k, t, element):
        version, prefix = self.key(k)
        if self.options["kind"] == "tvl" and isinstance(element, DatasetTree):
            self.obj.set_dataset_tree(version, self.stamp[t], prefix, element)
        else:
            self.obj.set_versioned_element(version, self.stamp[t], prefix, element)

    def element_at(self, key):
        t, prefix, element = self.obj.get_versioned_element(*key)
        if prefix != key[1]:
            raise Violation(f"access to {key} returned prefix {prefix}")
        return t, element

    def do_restamp(self, label):
        self.put(label["k"], label["t"], self.element_at(self.key(label["k"]))[1])

    def do_change(self, label):
        mrr = self.record(self.element_at(self.key(label["k"]))[1])
        ob.run_metadata(mrr.get_dataset_level_metadata(), label["e"][1])

    def do_get(self, label):
        version, prefix = self.key(label["k"])
        if self.options["kind"] == "tvl" and self.rng.random() < 0.5:
            self.obj.get_dataset_tree(version, prefix)
        else:
            self.obj.get_versioned_element(version, prefix)

    def do_unget(self, label):
        version, prefix = self.key(label["k"])
        if self.options["kind"] == "tvl" and self.rng.random() < 0.5:
            self.obj.unget_dataset_tree(version, prefix, self.repo)
        else:
            self.obj.unget_versioned_element(version, prefix, self.repo)

    def check_map(self, expected):
        obj = self.obj

        def counted():
            if len(obj) != len(expected):
                raise Violation(f"{len(obj)} entries, expected {len(expected)}")

        def pairs():
            listed = list(obj.versions_and_prefix_paths())
            if len(listed) != len(expected) or set(listed) != set(expected):
                raise Violation(f"listed pairs {listed}, expected {sorted(expected)}")

        def versions():
            if set(obj.versions()) != {v for v, _ in expected}:
                raise Violation(f"listed versions {set(obj.versions())}")

        def access():
            for key, (t, e) in expected.items():
                found_t, element = self.element_at(key)
                if (found_t, self.value(element)) != (t, e):
                    raise Violation(
                        f"{key} has {found_t, self.value(element)}, expected {t, e}")

        def by_version():
            for version in {v for v, _ in expected}:
                if isinstance(obj, TreeVersionList) and self.rng.random() < 0.5:
                    found = list(obj.get_dataset_trees(version))
                else:
                    found = list(obj.get_versioned_elements(version))
                found = sorted((str(p), t, self.value(e)) for t, p, e in found)
                wanted = sorted(
                    (str(p), t, e) for (v, p), (t, e) in expected.items() if v == version)
                if found != wanted:
                    raise Violation(f"elements of {version}: {found}, expected {wanted}")

        def everything():
            found = []
            for version, (t, p, element) in obj.versioned_elements:
                found.append((version, str(p), t, self.value(element)))
            wanted = sorted((v, str(p), t, e) for (v, p), (t, e) in expected.items())
            if sorted(found) != wanted:
                raise Violation(f"versioned elements {sorted(found)}, expected {wanted}")

        def unknown():
            for key in [("?", MetadataPath("")),
                        *((v, p / "zz") for v, p in list(expected)[:1])]:
                try:
                    found = obj.get_versioned_element(*key)
                except Exception:
                    continue
                raise Violation(f"access to unknown {key} returned {found}")
            try:
                found = list(obj.get_versioned_elements("?"))
            except Exception:
                return
            raise Violation(f"access to an unknown version returned {found}")

        views = [counted, pairs, versions, access, by_version, everything, unknown]
        self.rng.shuffle(views)
        for view in views:
            view()


class UUIDSetAdapter(KeyMapAdapter):
    cls, top = UUIDSet, "us"

    def __init__(self, env, options, rng):
        self.uuids = {n: 0xabc + i * 0x1001 for i, n in enumerate(MANY)}
        self.uuids.update(zip("123", rng.choice(UUIDS)))
        super().__init__(env, options, rng)

    def key(self, k):
        return UUID(int=self.uuids[k[0]])

    def keys(self):
        return self.obj.uuids()

    def element(self, e):
        vl = VersionList()
        self.set_value(vl, e[1])
        return vl

    def set_value(self, vl, value):
        vl.set_versioned_element(
            f"v{value % 2}", str(value), MetadataPath(""),
            MetadataRootRecord(UUID(int=5), str(value), None, None))

    def value(self, vl):
        return "M", {(v, str(p)): t for v, (t, p, _) in vl.versioned_elements}

    def put(self, k, t, element):
        self.obj.set_version_list(self.key(k), element)

    def created(self, obj):
        return UUIDSet({uuid: obj.get_version_list(uuid) for uuid in obj.uuids()})

    def element_at(self, key):
        return None, self.obj.get_version_list(key)

    def do_get(self, label):
        self.obj.get_version_list(self.key(label["k"]))

    def do_unget(self, label):
        self.obj.unget_version_list(self.key(label["k"]))

    def do_change(self, label):
        vl = self.obj.get_version_list(self.key(label["k"]))
        self.set_value(vl, label["e"][1])

    def check_map(self, expected):
        listed = list(self.obj.uuids())
        if len(listed) != len(expected) or set(listed) != set(expected):
            raise Violation(f"listed {listed}, expected {sorted(expected)}")
        keys = list(expected)
        self.rng.shuffle(keys)
        for key in keys:
            _, (_, value) = expected[key]
            vl = self.obj.get_version_list(key)
            found = self.value(vl)[1].get((f"v{value % 2}", ""))
            if found != str(value):
                raise Violation(f"{key} has version list {found}, expected {value}")
        try:
            self.obj.get_version_list(UUID(int=0xbad))
        except Exception:
            return
        raise Violation("access to an unknown identifier returned something")


K2 = [("1", ()), ("1", ("a",)), ("2", ()), ("2", ("a",))]
K3 = [(v, p) for v in "123" for p in ((), ("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "a"))]
KU = [(v, ()) for v in "123"]
MANY = "123456789abcdefghijk"
KM = [(v, ()) for v in MANY]


def specs(thorough, kinds=("vl", "tvl", "us"), scale=1.0):
    """ parts of a check """
    result = []
    inv = dict(module="KeyMap", invariants=["TypeOK"], properties=["Frame"])
    n = 10 if thorough else 1
    for kind in kinds:
        if kind == "us":
            # unget_version_list does not know where to save a new version list
            ops = {"set", "change", "get", "unget", "save", "reload", "copy"}
            result.append(dict(
                inv, part="us", adapter=UUIDSetAdapter, options=dict(kind="us"),
                constants=constants(KU, ("M",), False, False, ops), length=40,
                steps=int(1500 * n * scale)))
            result.append(dict(
                inv, part="us many", adapter=UUIDSetAdapter, options=dict(kind="us"),
                constants=constants(KM, ("M",), False, False, {"set", "save", "reload"}),
                simulate=int(5 * n * scale) or 1, depth=60, length=60,
                steps=int(250 * n * scale)))
            continue
        ad = dict(adapter=VersionListAdapter, options=dict(kind=kind))
        elements = ("D",) if kind == "tvl" else ("M", "D")
        result.append(dict(
            inv, part=f"{kind} closed", length=40, steps=int(1200 * n * scale),
            constants=constants(K2[:3], elements, values=1), **ad))
        result.append(dict(
            inv, part=f"{kind} deep", length=50, simulate=int(35 * n * scale) or 1, depth=50,
            constants=constants(K3, elements), steps=int(1200 * n * scale), **ad))
        result.append(dict(
            inv, part=f"{kind} many", length=60, simulate=int(5 * n * scale) or 1, depth=60,
            constants=constants(
                KM, elements, False, False, {"set", "restamp", "save", "reload"}),
            steps=int(250 * n * scale), **ad))
    return result
