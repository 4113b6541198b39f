"""
Replay of Batch.tla (P21)
"""
import os
import random
import shutil

import core
import gitread
import objects as ob
from behave import Adapter
from core import Violation, in_child
from objects import MetadataPath

from dataladmetadatamodel.filetree import FileTree
from dataladmetadatamodel.metadata import Metadata
from dataladmetadatamodel.mapper.reference import Reference


def limit_batches(size):
    """ Let batches have another size, if that is possible in this version of the code """
    import inspect
    try:
        from dataladmetadatamodel.mapper.gitmapper.gitblobcache import GitBlobCache
        parameter = inspect.signature(GitBlobCache.__init__).parameters["maxsize"]
    except (ImportError, KeyError):
        return False
    if not isinstance(parameter.default, int):
        return False
    original = GitBlobCache.__init__

    def init(self, *args, **kwargs):
        bound = inspect.signature(original).bind(self, *args, **kwargs)
        bound.arguments["maxsize"] = size
        original(*bound.args, **bound.kwargs)
    GitBlobCache.__init__ = init
    return True


class Singles:
    """ What is stored for a record that is written on its own """
    def __init__(self, env, base):
        self.repo = env.repo(base / "singles")
        self.ids = {}

    def blobs(self, value):
        if value not in self.ids:
            before = core.loose_objects(self.repo)
            metadata = Metadata()
            ob.run_metadata(metadata, value)
            location = metadata.write_out(self.repo).location
            new = core.loose_objects(self.repo) - before
            if len(new) != 2 or location not in new:
                raise Violation(f"a single record is stored as {new}, its location is {location}")
            self.ids[value] = (new - {location}).pop(), location
        return self.ids[value]


def new_tree(values, paths):
    tree = FileTree()
    for value, path in zip(values, paths):
        metadata = Metadata()
        ob.run_metadata(metadata, value)
        tree.add_metadata(path, metadata)
    return tree


class Alone:
    """ What is stored if the entries of a tree are written individually """
    def __init__(self, env, base):
        self.repo = env.repo(base / "alone")

    def write(self, values, paths):
        before = core.loose_objects(self.repo)
        tree = new_tree(values, paths)
        for path in paths:
            tree.get_metadata(path).write_out(self.repo)
        location = tree.mtree.write_out(self.repo).location
        return location, self.reached(location)

    def reached(self, location):
        result, todo = set(), [location]
        while todo:
            ident = todo.pop()
            if ident in result:
                continue
            result.add(ident)
            kind, data = gitread.read_object(self.repo, ident)
            if kind == "tree":
                todo += [i for _, _, i in gitread.parse_tree(data)]
            elif b'"location"' in data:
                todo.append(Reference.from_json_str(data.decode()).location)
        return result


class BatchAdapter(Adapter):
    def __init__(self, env, options, rng):
        super().__init__(env, options, rng)
        limit_batches(options["max"])
        self.repos = {r: env.repo(self.base / r) for r in "AB"}
        self.singles, self.alone = Singles(env, self.base), Alone(env, self.base)
        self.values = dict(zip("abc", rng.sample(range(1, 50), 3)))
        self.shim = self.base / "shim"
        self.others = {r: set() for r in self.repos}     # trees

    def paths(self, count):
        """ paths of the entries, in an order that the tree keeps """
        style = self.rng.choice(["flat", "deep", "mixed"])
        return [MetadataPath({
            "flat": f"f{n}", "deep": f"d{n}/e/f", "mixed": f"d{n % 2}/f{n}"}[style])
            for n in range(count)]

    def write(self, label):
        values = [self.values[c] for c in label["es"]]
        paths = self.paths(len(values))
        location, expected = self.alone.write(values, paths)
        self.others[label["r"]] |= expected - {
            i for v in values for i in self.singles.blobs(v)}
        repo = self.repos[label["r"]]
        before = core.loose_objects(repo)
        found = new_tree(values, paths).write_out(repo).location
        if found != location:
            raise Violation(f"written in a batch: {found}, one by one: {location}")
        after = core.loose_objects(repo)
        if not after - before <= expected <= after:
            raise Violation(
                f"missing objects: {sorted(expected - after)}, "
                f"surplus objects: {sorted(after - before - expected)}")

    def quiet(self, label):
        pass
    do_begin = do_put = do_flush = quiet

    def do_end(self, label):
        self.write(label)

    def do_fail(self, label):
        shutil.rmtree(self.shim, ignore_errors=True)
        self.shim.mkdir()
        rng = self.rng
        values = [self.values[c] for c in label["es"]]
        paths = self.paths(len(values))
        self.others[label["r"]] |= self.alone.write(values, paths)[1] - {
            i for v in values for i in self.singles.blobs(v)}
        tree = new_tree(values, paths)
        os.environ.update(
            VS_DIR=str(self.shim), VS_AT=str(label["at"]),
            VS_MODE="late" if label["late"] else "fail", VS_TIMES=rng.choice(["1", "-1"]))
        try:
            tree.write_out(self.repos[label["r"]])
        except Exception:
            pass
        else:
            if int((self.shim / "count").read_text()) > label["at"]:
                raise Violation("a storage command failed, but the write was successful")
            # it needs fewer commands than expected
            self.sure[label["r"]] |= {(k, c) for c in label["es"] for k in "mr"}
        finally:
            for key in ("VS_DIR", "VS_AT", "VS_MODE", "VS_TIMES"):
                os.environ.pop(key)

    def do_single(self, label):
        metadata = Metadata()
        ob.run_metadata(metadata, self.values[label["c"]])
        location = metadata.write_out(self.repos[label["r"]]).location
        if location != self.singles.blobs(self.values[label["c"]])[1]:
            raise Violation("location of a single record changed")

    def observe(self, state, label):
        if label["op"] in ("begin", "put", "flush"):
            return
        for r, repo in self.repos.items():
            if r not in state["store"]:
                continue
            found = core.loose_objects(repo)
            kinds = {"m": 0, "r": 1}

            def ids(blobs):
                return {self.singles.blobs(self.values[c])[kinds[k]] for k, c in blobs}
            # a failed write may have flushed more or less than the specification
            least = ids([b for b in state["store"][r] if b not in self.unsure(state, r)])
            most = ids(state["store"][r] + state["maybe"][r]) | self.others[r] | ids(
                self.failed.get(r, []))
            if not least <= found <= most:
                raise Violation(
                    f"realm {r}: not stored: {sorted(least - found)}, "
                    f"surplus: {sorted(found - most)}")

    def unsure(self, state, r):
        """ blobs that were stored by failed writes only """
        return [b for b in state["store"][r] if tuple(b) not in self.sure[r]]

    def start(self, state):
        self.failed, self.sure = {}, {r: set() for r in self.repos}

    def perform(self, label, before, after):
        result = super().perform(label, before, after)
        if label["op"] in ("end", "single"):
            for c in label.get("es", label.get("c")):
                self.sure[label["r"]] |= {("m", c), ("r", c)}
        elif label["op"] == "fail":
            self.failed.setdefault(label["r"], []).extend(
                (k, c) for c in label["es"] for k in "mr")
        return result


def large(env, task):
    """ trees around the real size of batches """
    count, different, fault, seed = task
    rng = random.Random(f"{seed}-{task}")
    base = env.mkdir("large")
    try:
        ob.set_style(rng)
        values = [rng.randrange(different) for _ in range(count)]
        paths = [MetadataPath(f"d{n % 7}/f{n}") for n in range(count)]
        alone = Alone(env, base)
        location, expected = alone.write(values, paths)
        repo = env.repo(base / "repo")
        tree = new_tree(values, paths)
        if fault is not None:
            shim = base / "shim"
            shim.mkdir()
            os.environ.update(VS_DIR=str(shim), VS_AT=str(fault), VS_MODE="fail", VS_TIMES="1")
            try:
                tree.write_out(repo)
            except Exception:
                failed = True
            else:
                failed = False
            for key in ("VS_DIR", "VS_AT", "VS_MODE", "VS_TIMES"):
                os.environ.pop(key)
            hit = int((shim / "count").read_text()) > fault
            if hit and not failed:
                raise Violation(f"{count} entries: command {fault} failed, the write did not")
            single = Metadata()
            ob.run_metadata(single, 10 ** 6)
            single_location = single.write_out(repo).location
            single_blobs = Singles(env, base).blobs(10 ** 6)
            if single_location != single_blobs[1] \
                    or not set(single_blobs) <= core.loose_objects(repo):
                raise Violation(f"{count} entries, write failed: a single record is not stored")
            expected = expected | set(single_blobs)
        found = tree.write_out(repo).location
        objects = core.loose_objects(repo)
        if found != location or objects != expected:
            raise Violation(
                f"{count} entries, {different} different: location {found}, expected {location},"
                f" missing: {sorted(expected - objects)[:5]}, "
                f"surplus: {sorted(objects - expected)[:5]}")

        def read():
            again = FileTree(realm=repo, reference=Reference("FileTree", location))
            for path, value in rng.sample(list(zip(paths, values)), min(20, count)):
                metadata = Metadata()
                ob.run_metadata(metadata, value)
                if again.get_metadata(path) != metadata:
                    raise Violation(f"{count} entries: wrong content at {path}")
            return 0
        in_child(read).get()
        return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
