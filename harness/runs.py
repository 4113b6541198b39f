""" Adapter for Runs.tla: metadata and sets of metadata instances """
import time

import objects as ob
from behave import Adapter
from core import Violation

from dataladmetadatamodel.metadata import (
    ExtractorConfiguration, Metadata, MetadataInstance, MetadataInstanceSet)

EXTRACTORS = [("e1", "e2", "e3"), ("metalad_core", "metalad_core_file", "metalad"),
              ("é", "e", "E"), ("", " ", "@"), ("a/b", "a\\b", "\"")]
VERSIONS = [("1", "2"), ("1.0", "1"), ("", "0"), ("v", "V"), ("0.0.1", "0.0.10")]
PARAMS = [
    ({"p": "x", "q": "y"}, {"p": "y", "q": "x"}, {}),
    ({"a": 1, "b": 2, "c": 3}, {"a": 1, "b": 2}, {"a": 1, "b": 2, "d": 3}),
    ({"a": None}, {"a": ""}, {}),
    ({"a": "1"}, {"a": 1}, {"1": "a"}),
    ({"x y": "é", "z": "\r\n"}, {"x y": "e", "z": "\n"}, {"": ""}),
    ({"n": {"x": [1, {"y": 2}]}}, {"n": {"x": [1, {"y": 3}]}}, {"n": []}),
    ({"a": "ab", "b": ""}, {"a": "a", "b": "b"}, {"ab": ""})]
CONTENTS = [
    ({"v": 1}, {"v": 2}, {"v": 3}),
    ({}, [], None),
    ("text\r\nmore\rend\n", "text\nmore\nend\n", ""),
    ({"k": {"k": [1, [2, {"x": None}], True]}}, {"k": {"k": [1, [2, {"x": 0}], True]}}, {"k": 0}),
    ({"ä": "ö\u2028\x85"}, {"a\u0308": "o"}, {"\U0001f600": "\ufffd"}),
    ("\ud800", "\u0000", "\x1a"),
    (0, "0", "null"),
    (1e308, 2 ** 70, -0.1),
    ({"a\"b\\": "\t'"}, {"a": "*None*"}, {"@": {"type": "Metadata", "version": "0"}})]
AUTHORS = [("A. Uthor", "a@example.com"), ("Ä \"U\"", ""), ("", "x"), ("A. Uthor", "b@c")]
STAMPS = [1.25, 0, 0.0, 1647435123.0012345, None, -1.5, 3]


class RunsAdapter(Adapter):
    def __init__(self, env, options, rng):
        super().__init__(env, options, rng)
        self.repos = [env.repo(self.base / "A"), env.repo(self.base / "B")]
        self.repo = self.repos[0]
        self.ext = dict(zip("xyz", rng.choice(EXTRACTORS)))
        versions, params = rng.choice(VERSIONS), rng.choice(PARAMS)
        # more versions in the part with many configurations
        self.versions = dict(zip("12345", [*versions, "5x", "4x", "3x"]))
        self.params = dict(zip("pqr", params))
        contents, others = rng.choice(CONTENTS), []
        self.values = {}
        for n, content in enumerate(contents, 1):
            author = rng.choice(AUTHORS)
            stamp = rng.choice(STAMPS)
            self.values[n] = (stamp, *author, content)
        # what differs might also be the author or the stamp only
        if rng.random() < 0.3:
            first = self.values[1]
            self.values[2] = (first[0], "somebody else", *first[2:])
            self.values[3] = (77.5, *first[1:])
        self.real_stamps = {}
        self.kind = options["kind"]
        self.obj = Metadata() if self.kind == "md" else {}

    def config(self, c):
        params = list(self.params[c[1]].items())
        self.rng.shuffle(params)
        return ExtractorConfiguration(self.versions[c[0]], dict(params))

    def add(self, obj, e, c, v, stamps=None):
        stamp, name, email, content = self.values[v]
        before = time.time()
        if self.kind == "md":
            if stamps is not None:
                stamp = stamps.get((e, tuple(c)), stamp)
            obj.add_extractor_run(
                stamp, self.ext[e], name, email, self.config(c), content)
            if stamp is None:
                found = obj.extractor_runs_for_extractor(self.ext[e]) \
                    .get_instance_for_configuration(self.config(c)).time_stamp
                if not before <= found <= time.time():
                    raise Violation(f"time stamp {found} of a run without time stamp")
                stamp = found
            return stamp
        if stamp is None:
            stamp = 5.5
        instance = MetadataInstance(stamp, name, email, self.config(c), content)
        if e not in obj:
            obj[e] = MetadataInstanceSet(
                [instance] if self.rng.random() < 0.5 else None)
        obj[e].add_metadata_instance(instance)
        return stamp

    def do_add(self, label):
        key = label["e"], tuple(label["c"])
        self.real_stamps[key] = self.add(self.obj, label["e"], label["c"], label["v"])

    def expected(self, state):
        result = {}
        for e, c, v in state["m"]:
            _, name, email, content = self.values[v]
            result.setdefault(e, []).append(
                (self.versions[c[0]], self.params[c[1]],
                 self.real_stamps[e, tuple(c)], name, email, content))
        return result

    def told(self, instances):
        return [
            (i.configuration.version, dict(i.configuration.parameter), i.time_stamp,
             i.author_name, i.author_email, i.metadata_content) for i in instances]

    def same_lists(self, where, found, expected):
        def key(x):
            return repr((x[0], sorted(x[1].items(), key=repr), x[2:]))
        if sorted(found, key=key) != sorted(expected, key=key) or (
                [repr(x[5]) for x in sorted(found, key=key)]
                != [repr(x[5]) for x in sorted(expected, key=key)]):
            raise Violation(f"{where}: runs {found}, expected {expected}")

    def check(self, state, obj=None):
        obj = self.obj if obj is None else obj
        expected = self.expected(state)
        names = {self.ext[e]: runs for e, runs in expected.items()}
        if self.kind == "md":
            listed = list(obj.extractors)
            if sorted(listed) != sorted(names):
                raise Violation(f"extractors {listed}, expected {sorted(names)}")
            for name, instances in obj.extractor_runs:
                self.same_lists(name, self.told(instances), names[name])
            sets = {name: obj.extractor_runs_for_extractor(name) for name in names}
        else:
            sets = {self.ext[e]: s for e, s in obj.items()}
        for name, runs in names.items():
            self.same_lists(name, self.told(sets[name]), runs)
            self.same_lists(name, self.told(sets[name].instances.values()), runs)
            configs = [(c.version, dict(c.parameter)) for c in sets[name].configurations]
            if sorted(map(repr_config, configs)) != sorted(
                    repr_config(r[:2]) for r in runs):
                raise Violation(f"{name}: configurations {configs}, expected {runs}")
            for index, config in enumerate(sets[name].configurations):
                a = sets[name].get_instance_for_configuration_index(index)
                b = sets[name].get_instance_for_configuration(config)
                if a.configuration != config or b.configuration != config:
                    raise Violation(f"{name}: wrong instance for {config.to_json_str()}")
            for run in runs:
                found = sets[name].get_instance_for_configuration(
                    ExtractorConfiguration(run[0], run[1]))
                self.same_lists(name, self.told([found]), [run])

    def do_get(self, label):
        if self.kind == "md":
            self.obj.extractor_runs_for_extractor(self.ext[label["e"]])
        else:
            self.obj[label["e"]]

    def check_result(self, label, result, before, after):
        pass

    def do_json(self, label):
        if self.kind == "md":
            old, self.obj = self.obj, Metadata.from_json(self.obj_json())
            self.equal(old, self.obj, True)
        else:
            for e, old in self.obj.items():
                self.obj[e] = MetadataInstanceSet.from_json_str(old.to_json_str())
                self.equal(old, self.obj[e], True)
                for instance in old:
                    again = MetadataInstance.from_json_str(instance.to_json_str())
                    self.equal(instance, again, True)
                    config = ExtractorConfiguration.from_json_str(
                        instance.configuration.to_json_str())
                    self.equal(instance.configuration, config, True)

    def obj_json(self):
        return self.obj.to_json()

    def do_save(self, label):
        if self.kind == "md":
            self.obj.write_out(self.repo)

    def do_reload(self, label):
        if self.kind == "md":
            self.obj = Metadata(
                realm=self.repo, reference=self.obj.write_out(self.repo))

    def do_unload(self, label):
        if self.kind == "md":
            self.obj.write_out(self.repo)
            self.obj.purge()

    def do_copy(self, label):
        if self.kind == "md":
            self.repo = self.repos[1 - self.repos.index(self.repo)]
            self.obj = self.obj.deepcopy(new_destination=self.repo)

    def do_equal(self, label):
        pass

    do_differ = do_equal

    def twin(self, runs):
        runs = list(runs)
        self.rng.shuffle(runs)
        obj = Metadata() if self.kind == "md" else {}
        for e, c, v in runs:
            if self.rng.random() < 0.3:
                self.add(obj, e, c, 1 + v % 2, {})
            self.add(obj, e, c, v, self.real_stamps)
        return obj

    def equal(self, a, b, expected):
        if (a == b) != expected or (b == a) != expected or (a != b) == expected:
            raise Violation(f"compared equal: {a == b}, {b == a}, expected {expected}")

    def observe(self, state, label):
        if label["op"] in ("equal", "differ"):
            runs = {(e, tuple(c)): v for e, c, v in state["m"]}
            if label["op"] == "differ":
                key = label["e"], tuple(label["c"])
                old, v = runs.get(key), label["v"]
                if old is not None:
                    # metadata gets the same time stamps below
                    first = 1 if self.kind == "md" else 0
                    if self.values[old][first:] == self.values[v][first:]:
                        return
                runs[key] = v
            twin = self.twin([(e, c, v) for (e, c), v in runs.items()])
            self.equal(self.obj, twin, label["op"] == "equal")
        if self.rng.random() < 0.5:
            self.check(state)

    def finish(self, state):
        self.check(state)
        self.do_json({})
        self.check(state)
        self.do_reload({})
        self.check(state)


def repr_config(c):
    return repr((c[0], sorted(c[1].items(), key=repr)))


OPS = {"add", "get", "json", "save", "reload", "unload", "copy", "equal", "differ"}


def specs(thorough, scale=1.0):
    n = 10 if thorough else 1
    base = dict(module="Runs", invariants=["TypeOK"], properties=["LastWins"],
                adapter=RunsAdapter, length=40)
    consts = dict(Extractors={"x", "y"}, Versions={"1", "2"}, Params={"p", "q"},
                  Values={1, 2}, Ops=OPS)
    small = dict(consts, Extractors={"x", "y"}, Versions={"1"}, Params={"p", "q", "r"},
                 Values={1, 2})
    return [
        dict(base, part="md", options=dict(kind="md"), constants=small,
             steps=int(9000 * n * scale)),
        dict(base, part="md wide", options=dict(kind="md"), constants=dict(
            consts, Extractors={"x", "y", "z"}, Params={"p", "q", "r"}, Values={1, 2, 3}),
            simulate=int(40 * n * scale), depth=60, length=60, steps=int(2000 * n * scale)),
        dict(base, part="md many", options=dict(kind="md"), constants=dict(
            consts, Extractors={"x"}, Versions=set("12345"), Params={"p", "q", "r"},
            Ops={"add", "json", "reload", "get"}),
            simulate=int(12 * n * scale), depth=70, length=70, steps=int(800 * n * scale)),
        dict(base, part="set", options=dict(kind="set"),
             constants=dict(consts, Extractors={"x"}, Params={"p", "q", "r"}, Values={1, 2, 3},
                            Versions={"1"}),
             steps=int(9000 * n * scale))]
