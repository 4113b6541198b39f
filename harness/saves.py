"""
Recording of operations that load, save and flush, one storage command at a time,
with failing commands and killed processes, for SaveTrace.tla (P10, P11)
"""
import json
import os
import random
import re
import shutil
from pathlib import Path

import core
import gitread
import objects as ob
from core import Violation, in_child
from objects import MetadataPath
from server import ServerError
from stepper import Stepper

from dataladmetadatamodel.mapper.gitmapper.objectreference import flush_object_references
from dataladmetadatamodel.mapper.reference import Reference

ENTRY = {"tvl": "refs/datalad/dataset-tree-version-list",
         "us": "refs/datalad/dataset-uuid-set"}
STORE = "refs/datalad/object-references-2.0"


# --------------------------------------------------------------------------
# Random structures
# --------------------------------------------------------------------------
def leaf(rng):
    return {"k": "md", "v": rng.randint(1, 4), "c": {}}


def file_tree(rng, depth=2):
    kids = {}
    for name in rng.sample("abcd", rng.randint(1, 3)):
        if depth and rng.random() < 0.35:
            kids[name] = file_tree(rng, depth - 1)
        else:
            kids[name] = leaf(rng)
    return {"k": "n", "v": 0, "c": kids}


def record(rng):
    kids = {}
    if rng.random() < 0.7:
        kids["M"] = leaf(rng)
    if rng.random() < 0.6:
        kids["F"] = file_tree(rng)
    return {"k": "mrr", "v": 0, "c": kids}


def dataset_tree(rng, depth=2):
    kids = {}
    if rng.random() < 0.7:
        kids["R"] = record(rng)
    for name in rng.sample("sd", rng.randint(0, 2)) if depth else ():
        kids[name] = dataset_tree(rng, depth - 1)
    if not kids:
        kids["R"] = record(rng)
    return {"k": "n", "v": 0, "c": kids}


def version_list(rng):
    return {"k": "vl", "v": 0, "c": {
        n: record(rng) for n in rng.sample("pqw", rng.randint(1, 2))}}


def structure(kind, rng):
    if kind == "ft":
        return file_tree(rng)
    if kind == "dt":
        return dataset_tree(rng)
    if kind == "us":
        return {"k": "us", "v": 0, "c": {
            n: version_list(rng) for n in rng.sample("uw", rng.randint(1, 2))}}
    return {"k": "vl", "v": 0, "c": {
        n: dataset_tree(rng) for n in rng.sample("pqw", rng.randint(1, 2))}}


# --------------------------------------------------------------------------
# The process
# --------------------------------------------------------------------------
class Process:
    def __init__(self, style):
        ob.use_style(style)
        self.has = {}

    def build(self, kind, content):
        self.has[kind] = ob.build(kind, content)

    def load(self, kind, repo, location=None):
        """ what is stored """
        self.has.pop(kind, None)
        if kind in ENTRY:
            self.has[kind] = ob.load_top(kind, repo)
            if self.has[kind] is None:
                del self.has[kind]
        else:
            self.has[kind] = ob.stub(kind, repo, Reference("MTreeNode", location))

    def fetch(self, kind, repo, location=None):
        """ load and read everything """
        self.load(kind, repo, location)
        return ob.probe(self.has.get(kind))

    def forget(self, kind):
        self.has.pop(kind, None)

    def holds(self):
        return list(self.has)

    def read(self, kind):
        return ob.probe(self.has.get(kind))

    def content(self, kind):
        return in_child(lambda: ob.probe(self.has.get(kind))).get()

    def write(self, kind, repo, force):
        reference = self.has[kind].write_out(repo, **({"force_write": True} if force else {}))
        return None if reference.is_none_reference() else reference.location

    def copy(self, kind, repo):
        reference = ob.reference(self.has[kind].deepcopy(new_destination=repo))
        return None if reference.is_none_reference() else reference.location

    def flush(self, repo):
        flush_object_references(Path(repo))

    def saved(self, repo):
        """ references of all objects that report to be saved """
        result = []

        def walk(obj):
            node = ob.tree(obj)
            reference = node.reference
            if (node.is_saved_on(repo) and reference is not None
                    and not reference.is_none_reference()):
                location = reference.location
                if location.startswith("refs/"):
                    location = gitread.read_ref(repo, location)
                if location:
                    result.append(location)
            for part in node.modifiable_sub_objects:
                walk(part)
        for obj in self.has.values():
            walk(obj)
        return result

    # changes
    def leaves(self, obj):
        obj.ensure_mapped()
        if isinstance(obj, ob.Metadata):
            yield obj
        elif isinstance(obj, (ob.FileTree, ob.DatasetTree)):
            for path, _ in list(obj.get_paths_recursive(False)):
                yield from self.leaves(ob.tree(obj).get_object_at_path(path))
        elif isinstance(obj, ob.MetadataRootRecord):
            for part in (obj.get_dataset_level_metadata(), obj.get_file_tree()):
                if part is not None:
                    yield from self.leaves(part)
        elif isinstance(obj, ob.VersionList):
            for version, prefix in list(obj.versions_and_prefix_paths()):
                yield from self.leaves(obj.get_versioned_element(version, prefix)[2])
        elif isinstance(obj, ob.UUIDSet):
            for uuid in list(obj.uuids()):
                yield from self.leaves(obj.get_version_list(uuid))

    def records(self, obj):
        if isinstance(obj, ob.MetadataRootRecord):
            obj.ensure_mapped()
            yield obj
        elif isinstance(obj, ob.DatasetTree):
            for path, _ in list(obj.dataset_paths):
                yield obj.get_metadata_root_record(path)
        elif isinstance(obj, ob.VersionList):
            for version, prefix in list(obj.versions_and_prefix_paths()):
                yield from self.records(obj.get_versioned_element(version, prefix)[2])
        elif isinstance(obj, ob.UUIDSet):
            for uuid in list(obj.uuids()):
                yield from self.records(obj.get_version_list(uuid))

    def change(self, kind, seed):
        rng = random.Random(seed)
        obj = self.has[kind]
        for _ in range(rng.choice([1, 1, 2])):
            choice = rng.random()
            if choice < 0.55:
                leaves = list(self.leaves(obj))
                if leaves:
                    ob.run_metadata(rng.choice(leaves), rng.randint(1, 9))
            elif isinstance(obj, ob.FileTree):
                path = MetadataPath(rng.choice(["z", "d/z", "y/x/z"]))
                try:
                    obj.add_metadata(path, ob.build("md", leaf(rng)))
                except ValueError:
                    pass
            else:
                records = list(self.records(obj))
                if not records:
                    return
                target = rng.choice(records)
                if rng.random() < 0.5:
                    target.set_file_tree(ob.build("ft", file_tree(rng)))
                else:
                    target.set_dataset_level_metadata(ob.build("md", leaf(rng)))

    def replace(self, kind, content):
        obj = self.has.get(kind)
        new = ob.build(kind, content)
        if kind == "us" and obj is not None:
            for uuid in list(new.uuids()):
                obj.set_version_list(uuid, new.get_version_list(uuid))
        elif kind == "tvl" and obj is not None:
            for version, prefix in list(new.versions_and_prefix_paths()):
                stamp, _, tree = new.get_dataset_tree(version, prefix)
                obj.set_dataset_tree(version, stamp, prefix, tree)
        else:
            self.has[kind] = new


# --------------------------------------------------------------------------
# The recorder
# --------------------------------------------------------------------------
class Recorder:
    def __init__(self, env, rng):
        self.env, self.rng = env, rng
        self.base = env.mkdir("saves")
        self.repo = env.repo(self.base / "repo")
        self.other = env.repo(self.base / "other")
        ob.set_style(rng)
        style = dict(ob.style)
        self.stepper = Stepper(self.base / "shim", lambda: Process(style))
        self.events = []
        self.objects = set()       # stored objects that were reported
        self.refs = set()
        self.root = None
        self.stored = {}           # entry point -> content
        self.trees = {}            # location -> content
        self.memory = {}           # kind -> content in memory of the process
        self.counts = {}

    def look(self):
        """ what is different in the repository """
        now = core.loose_objects(self.repo)
        new, self.objects = now - self.objects, now
        root = gitread.read_ref(self.repo, STORE)
        found = set(self.refs)
        if root != self.root:
            self.root = root
            try:
                found = {i for _, i in gitread.read_store(self.repo, STORE) or ()}
            except gitread.Missing as e:
                raise Violation(f"the object reference store is not complete, {e} is missing")
            if not self.refs <= found:
                raise Violation("the object reference store lost references")
        fresh, self.refs = found - self.refs, found
        return dict(new=sorted(new), refs=sorted(fresh), entry={
            e: gitread.read_ref(self.repo, ref) or "-" for e, ref in ENTRY.items()})

    def quiet(self, event):
        o = event["obs"]
        last = [e for e in self.events if "obs" in e][-1:]
        return not o["new"] and not o["refs"] and last and last[0]["obs"]["entry"] == o["entry"]

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def attempt(self, op, args, kind, entry, faults, expect=None):
        """
        Perform an operation, faults: command number -> how. Returns its result
        or "err" or "kill".
        """
        begin = dict(e="begin", kind=kind, goal="-", entry=entry or "-", op=op)
        self.events.append(begin)
        before = dict(self.stored)
        stepper, fault, first = self.stepper, None, None
        stepper.start(op, *args)
        while True:
            state = stepper.wait()
            if state == "timeout":
                raise Violation(f"{op} does not end", events=self.events)
            event = dict(e="look", obs=self.look())
            if not self.quiet(event):
                self.events.append(event)
                if entry and event["obs"]["entry"][entry] not in ("-", begin.get("was")):
                    self.check_entry(entry, [before.get(entry), expect])
            begin["was"] = event["obs"]["entry"].get(entry)
            if entry and first is None:
                first = begin["was"]
            elif entry and begin["was"] != first:
                begin["goal"] = begin["was"]    # the only possible goal
            if state == "end":
                break
            how = faults.get(stepper.number, faults.get("all", ""))
            number = stepper.number
            stepper.go(how)
            if how:
                self.count(f"{op}, {how}")
                fault = fault or f"{how} {number}"
            if how in ("kill", "klate"):
                event = dict(e="look", obs=self.look())
                if entry and event["obs"]["entry"][entry] != first:
                    begin["goal"] = event["obs"]["entry"][entry]
                self.events.append(event)
                self.events.append(dict(e="kill", fault=fault, log=stepper.log()))
                self.memory.clear()
                if entry:
                    self.check_entry(entry, [before.get(entry), expect])
                return "kill"
        try:
            result = stepper.server.result()
        except ServerError as e:
            if not stepper.server.alive:
                raise core.MachineryError(f"process ended: {e}")
            if not fault:
                raise Violation(f"{op} failed without a reason: {e}", trace=e.trace,
                                log=stepper.log(), events=self.short())
            self.events.append(dict(e="err", fault=True, why=fault, error=str(e)[:200],
                                    log=stepper.log(), saved=stepper.call("saved", self.repo)))
            return "err"
        begin["goal"] = (result if isinstance(result, str) else None) or "-"
        if begin["goal"].startswith("refs/"):
            begin["goal"] = gitread.read_ref(self.repo, begin["goal"]) or "-"
        self.events.append(dict(e="ok", saved=stepper.call("saved", self.repo), fault=fault))
        self.result = result
        if fault:
            self.count(f"{op}, fault tolerated")
        return "ok"

    def short(self):
        return [{k: v for k, v in e.items() if k not in ("obs", "saved")}
                for e in self.events[-12:]]

    def check_entry(self, entry, allowed):
        got = in_child(lambda: ob.probe(ob.load_top(entry, self.repo)))
        if got.error:
            raise Violation(f"the entry point {entry} cannot be loaded: {got.error[-600:]}",
                            events=self.short(), log=self.stepper.log())
        for content in allowed:
            if ob.same(got.value, content or ob.NONE):
                self.stored[entry] = content
                return
        raise Violation(f"the entry point {entry} leads to {got.value}, expected {allowed}",
                        events=self.short(), log=self.stepper.log())

    def plan(self, mode):
        """ faults of an attempt """
        rng = self.rng
        if rng.random() < 0.45:
            return {}
        hows = {"kill": ["kill", "klate"], "fail": ["fail", "late", "die", "dlate", "cut", "cut"],
                "both": ["kill", "klate", "fail", "late", "die", "cut"]}[mode]
        if rng.random() < 0.1:
            return {"all": rng.choice(hows)}
        return {rng.choice([0, 1, 2, 3, int(rng.expovariate(0.12))]): rng.choice(hows)}

    def save(self, kind, mode):
        """ write, repeat until it works """
        rng, call = self.rng, self.stepper.call
        if kind not in self.memory:
            return
        expect = self.memory[kind]
        entry = kind if kind in ENTRY else None
        for turn in range(4):
            faults = self.plan(mode) if turn < 3 else {}
            outcome = self.attempt(
                "write", (kind, self.repo, rng.random() < 0.1), "top" if entry else "tree",
                entry, faults, expect)
            if outcome == "kill":
                return
            content = call("content", kind)
            if not ob.same(content, expect):
                raise Violation(f"write changed the content: {content}, expected {expect}",
                                events=self.short())
            if outcome == "ok":
                self.check_saved(kind, self.result, expect)
                break
            if rng.random() < 0.3:
                break

    def check_saved(self, kind, location, expect):
        if kind in ENTRY:
            self.check_entry(kind, [expect])
            return
        if location is None:
            if expect["k"] != "none":
                raise Violation(f"nothing stored, expected {expect}", events=self.short())
            return
        got = in_child(lambda: ob.probe(
            ob.stub(kind, self.repo, Reference("MTreeNode", location))))
        if got.error or not ob.same(got.value, expect):
            raise Violation(f"{location} leads to {got.error or got.value}, expected {expect}",
                            events=self.short())
        self.trees[location] = (kind, expect)

    def copy(self, kind, mode):
        """ from the other repository """
        call, rng = self.stepper.call, self.rng
        content = structure(kind, rng)
        call("build", kind, content)
        location = call("write", kind, self.other, False)
        entry = kind if kind in ENTRY else None
        for turn in range(4):
            if turn and rng.random() < 0.5:
                call("load", kind, self.other, location)
            outcome = self.attempt(
                "copy", (kind, self.repo), "top" if entry else "tree", entry,
                self.plan(mode) if turn < 3 else {}, content)
            if outcome == "kill":
                return
            if outcome == "ok":
                self.check_saved(kind, self.result, content)
                break
        self.memory.pop(kind, None)
        call("forget", kind)

    def flush(self, mode):
        for turn in range(4):
            if self.attempt("flush", (self.repo,), "flush", None,
                            self.plan(mode) if turn < 3 else {}) != "err":
                break

    def load(self, kind, mode):
        """ load and read everything that is stored """
        location = None
        if kind in ENTRY:
            if not self.stored.get(kind):
                return
            expect = self.stored[kind]
        else:
            known = [(p, c) for p, (k, c) in self.trees.items() if k == kind]
            if not known:
                return
            location, expect = self.rng.choice(known)
        for turn in range(4):
            op, args = "fetch", (kind, self.repo, location)
            if turn and kind in self.memory and self.rng.random() < 0.6:
                op, args = "read", (kind,)      # continue with what is loaded
            self.memory.pop(kind, None)
            outcome = self.attempt(op, args, "load", None, self.plan(mode) if turn < 3 else {})
            if outcome == "kill":
                return
            if outcome == "ok":
                if not ob.same(self.result, expect):
                    raise Violation(
                        f"{op} returned {self.result}, expected {expect}",
                        log=self.stepper.log(), events=self.short())
                self.memory[kind] = expect
                return
            if kind in self.stepper.call("holds"):
                self.memory[kind] = expect

    def change(self, kind):
        call = self.stepper.call
        if kind not in self.memory:
            if kind in ENTRY and self.stored.get(kind):
                call("load", kind, self.repo)
            else:
                call("build", kind, structure(kind, self.rng))
        if self.rng.random() < 0.3:
            call("replace", kind, structure(kind, self.rng))
        else:
            call("change", kind, self.rng.random())
        self.memory[kind] = call("content", kind)

    def close(self):
        self.stepper.close()
        shutil.rmtree(self.base, ignore_errors=True)

    # the graph of all objects
    def trace(self):
        kids, tree, todo = {}, [], set()
        for e in self.events:
            todo.update(e.get("saved", ()))
            todo.add(e.get("goal", "-"))
            if "obs" in e:
                todo.update(e["obs"]["refs"])
                todo.update(e["obs"]["entry"].values())
        todo.discard("-")
        while todo:
            ident = todo.pop()
            if ident in kids:
                continue
            kids[ident] = []
            try:
                kind, data = gitread.read_object(self.repo, ident)
            except gitread.Missing:
                continue
            if kind == "tree":
                tree.append(ident)
                kids[ident] = sorted({i for _, _, i in gitread.parse_tree(data)})
            else:
                kids[ident] = sorted(locations(data))
            todo.update(kids[ident])
        names = {ident: f"o{n}" for n, ident in enumerate(sorted(kids))}

        def short(values):
            return [names[v] for v in values if v in names]
        events = []
        for e in self.events:
            e = {k: e[k] for k in ("e", "kind", "goal", "entry", "obs", "saved")
                 if k in e}
            if e["e"] == "begin":
                e["goal"] = names.get(e["goal"], "-")
            if "obs" in e:
                o = e["obs"]
                e["obs"] = dict(new=short(o["new"]), refs=short(o["refs"]), entry={
                    k: names.get(v, v) for k, v in o["entry"].items()})
            if "saved" in e:
                e["saved"] = sorted(set(short(e["saved"])))
            if e["e"] == "err":
                e["fault"] = True
            events.append(e)
        return dict(kids={names[k]: short(v) for k, v in kids.items()}, tree=short(tree),
                    stored=[], events=events)


def locations(data):
    """ locations in the text of a stored object """
    try:
        value = json.loads(data)
    except ValueError:
        return set()
    found = set()

    def walk(x):
        if isinstance(x, dict):
            location = x.get("location")
            if (isinstance(location, str) and re.fullmatch("[0-9a-f]{40}", location)
                    and location.strip("0")):
                found.add(location)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(value)
    return found


def record_history(env, seed, steps, mode):
    rng = random.Random(seed)
    recorder = Recorder(env, rng)
    kinds = rng.choice([["us"], ["tvl"], ["us", "tvl"], ["ft"], ["dt"], ["ft", "us"]])
    try:
        for _ in range(steps):
            kind, choice = rng.choice(kinds), rng.random()
            if rng.random() < 0.05:
                core.pack(recorder.repo, objects=False)
            if choice < 0.3:
                recorder.change(kind)
            elif choice < 0.62:
                recorder.save(kind, mode)
            elif choice < 0.72:
                recorder.copy(kind, mode)
            elif choice < 0.84:
                recorder.load(kind, mode)
            else:
                recorder.flush(mode)
        recorder.attempt(
            "flush", (recorder.repo,), "flush", None, {})
        for kind in kinds:
            recorder.load(kind, mode)
        return dict(trace=recorder.trace(), counts=recorder.counts,
                    events=[{k: v for k, v in e.items() if k not in ("obs", "saved")}
                            for e in recorder.events])
    finally:
        recorder.close()


def validate(check, part, results):
    traces = [r["trace"] for r in results]
    result = core.run_tlc(
        check.env, "SaveTrace", dict(
            Objects=set(), Entries=set(ENTRY), Shapes=set(), Trees=set(), MaxOps=0,
            Fix={"order", "register", "saved"}, TraceFile="trace.json"),
        spec="TraceSpec", workers=1, constraints=["Progress"], postcondition="Report",
        extra_files={"trace.json": json.dumps(traces)})
    if not result.ok:
        check.model_error(part, result)
    for line in result.lines:
        if line.startswith("BAD "):
            number, done = map(int, line[4:].split())
            found = results[number - 1]
            check.violation(
                part, dict(trace=found["trace"], done=done),
                f"recorded event {done + 1} is no step of the specification: "
                f"{found['trace']['events'][done]}, after {found['events'][max(0, done - 6):done]}")
    check.coverage["traces_validated_against_impl"] += len(traces)
    check.coverage["states"] += result.distinct
    check.coverage["transitions"] += result.states
    check.add(part, histories=len(traces), events=sum(len(t["events"]) for t in traces),
              objects=sum(len(t["kids"]) for t in traces), tlc_distinct_states=result.distinct)
    for r in results:
        check.add(part, **{k: v for k, v in r["counts"].items()})
