"""
Serialised documents and stored structures with altered marks (P20)
"""
import json
import random
from pathlib import Path
from uuid import UUID

import gitread
import objects as ob
from core import Violation
from objects import ROOT_RECORD

from dataladmetadatamodel import version_string
from dataladmetadatamodel.metadata import (
    ExtractorConfiguration,
    Metadata,
    MetadataInstance,
    MetadataInstanceSet,
)
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatasource import (
    ImmediateMetadataSource,
    LocalGitMetadataSource,
    MetadataSource,
)
from dataladmetadatamodel.mapper.reference import Reference

TYPES = {"Metadata", "MetadataInstanceSet", "MetadataInstance", "ExtractorConfiguration",
         "Reference", "LocalGitMetadataSource", "ImmediateMetadataSource", "foreign"}
CLASSES = {"Metadata", "MTreeNode", "FileTree", "DatasetTree", "MetadataRootRecord",
           "VersionList", "TreeVersionList", "UUIDSet", "Text", "foreign"}
VERSIONS = {"older", "newer", "other"}
MISSING = object()
FOREIGN = {
    "older": ["1.0", "1.9", "0.0", "1", "1.10"],
    "newer": ["2.1", "3.0", "20.0", "2.0.1", "2.00", "2.0a"],
    "other": ["", None, 2, 2.0, "2", "v2.0", " 2.0", "2.0 ", MISSING, ["2.0"], {}, True]}


# --------------------------------------------------------------------------
# Documents: a function that returns the right document, and a dict: site ->
# (type, way to the site)
# --------------------------------------------------------------------------
def configuration(n):
    return ExtractorConfiguration(f"v{n}", {"p": f"x{n}", "q": n} if n % 2 else {})


def instance(n):
    return MetadataInstance(1.5 + n, f"author {n}", "a@b.c", configuration(n), {"n": [n]})


def instances(*numbers):
    return MetadataInstanceSet([instance(n) for n in numbers])


def metadata(rng=None):
    result = Metadata()
    for extractor, numbers in (("ex a", (1, 2)), ("ex b", (3,))):
        for n in numbers:
            i = instance(n)
            result.add_extractor_run(
                i.time_stamp, extractor, i.author_name, i.author_email, i.configuration,
                i.metadata_content)
    return result


def sites_of(obj, way=()):
    """ all marked places of a document """
    found = []
    if isinstance(obj, dict):
        if "@" in obj and isinstance(obj["@"], dict) and "type" in obj["@"]:
            found.append((way, obj["@"]["type"]))
        for k, v in obj.items():
            if k not in ("@", "metadata_content", "content"):
                found.extend(sites_of(v, way + (k,)))
    elif isinstance(obj, list):
        for n, v in enumerate(obj):
            found.extend(sites_of(v, way + (n,)))
    return found


def from_metadata_json(text):
    return Metadata.from_json(text)


def again(cls):
    return lambda text: cls.from_json_str(text)


def from_obj(cls):
    return lambda text: cls.from_json_obj(json.loads(text))


def init_metadata(text):
    result = Metadata()
    result.init_from_json(text)
    return result


DOCUMENTS = {
    "configuration": (
        lambda: configuration(1), lambda o: o.to_json_str(),
        [again(ExtractorConfiguration), from_obj(ExtractorConfiguration)]),
    "instance": (
        lambda: instance(1), lambda o: o.to_json_str(),
        [again(MetadataInstance), from_obj(MetadataInstance)]),
    "instances": (
        lambda: instances(1, 2), lambda o: o.to_json_str(),
        [again(MetadataInstanceSet), from_obj(MetadataInstanceSet)]),
    "metadata": (metadata, lambda o: o.to_json(), [from_metadata_json, init_metadata]),
    "reference": (
        lambda: Reference("Metadata", "0" * 39 + "1"), lambda o: o.to_json_str(),
        [again(Reference), from_obj(Reference)]),
    "local": (
        lambda: LocalGitMetadataSource(Path("/a/b"), "0" * 39 + "1"),
        lambda o: o.to_json_str(),
        [again(MetadataSource), from_obj(MetadataSource), again(LocalGitMetadataSource),
         from_obj(LocalGitMetadataSource)]),
    "immediate": (
        lambda: ImmediateMetadataSource({"a": [1]}), lambda o: o.to_json_str(),
        [again(MetadataSource), from_obj(MetadataSource), again(ImmediateMetadataSource),
         from_obj(ImmediateMetadataSource)])}


def document_constants(name):
    make, text, _ = DOCUMENTS[name]
    found = sites_of(json.loads(text(make())))
    names = {f"s{n}": way for n, (way, _) in enumerate(found)}
    types = {f"s{n}": kind for n, (_, kind) in enumerate(found)}
    return names, types


def set_mark(place, mark, original, rng):
    """ place: dict with "@" """
    if mark["t"] != original["t"]:
        value = mark["t"] if mark["t"] != "foreign" else rng.choice(
            ["", None, "Foo", original["t"].lower(), original["t"] + "s", " " + original["t"],
             MISSING, 1, [original["t"]], original["t"][:-1]])
        if value is MISSING:
            place["@"].pop("type")
        else:
            place["@"]["type"] = value
    if mark["v"] != "this":
        value = rng.choice([v for v in FOREIGN[mark["v"]] if v != version_string])
        if value is MISSING:
            if rng.random() < 0.3:
                place.pop("@")
            else:
                place["@"].pop("version")
        else:
            place["@"]["version"] = value
    if mark["c"] != original["c"]:
        place["class_name"] = mark["c"] if mark["c"] != "foreign" else rng.choice(
            ["", "metadata", "object", "MetadataInstanceSet", "Reference", "*None*"])


def check_document(name, case, rng):
    make, text, loaders = DOCUMENTS[name]
    ways, types = document_constants(name)
    doc = json.loads(text(make()))
    places = []
    for site, mark in case["m"].items():
        place = doc
        for step in ways[site]:
            place = place[step]
        places.append((place, site, mark))
    for place, site, mark in places:
        set_mark(place, mark, dict(t=types[site], v="this", c="-"), rng)
    altered = json.dumps(doc)
    expected = case["x"]["all"]
    loader = rng.choice(loaders)
    try:
        result = loader(altered)
    except Exception as e:
        if expected == "object":
            raise Violation(f"{name} is refused ({e!r}): {altered}")
        return
    if expected == "error":
        if result is None and name in ("local", "immediate"):
            return      # no object
        raise Violation(f"{name} with foreign mark is accepted: {altered}")
    if result != make() or text(result) != text(make()):
        raise Violation(f"{name} differs from what was serialised: {text(result)}")


# --------------------------------------------------------------------------
# A stored version list with a dataset tree, a root record, and metadata
# --------------------------------------------------------------------------
REFERENCES = {
    "v1": {"DatasetTree", "MTreeNode"}, "v2": {"MetadataRootRecord"},
    "rm": {"Metadata"}, "rf": {"MTreeNode", "FileTree", "DatasetTree"},
    "bm": {"Metadata"}, "bf": {"Metadata"}}
STORED = {**{s: "Reference" for s in REFERENCES}, "dm": "Metadata", "df": "Metadata"}
NEEDS = {"M": {"v1", "rm", "bm", "dm"}, "F": {"v1", "rf", "bf", "df"},
         "X": {"v2"}}


def check_stored(case, rng, repo):
    def marked(site, obj):
        mark = case["m"].get(site)
        if mark:
            # the class that was written already
            original = dict(t=STORED[site], v="this", c=mark["c"] if site not in REFERENCES
                            else obj["class_name"])
            set_mark(obj, mark, original, rng)
        return obj

    def blob(obj):
        return gitread.write_object(repo, "blob", json.dumps(obj).encode())

    def reference(site, location):
        classes = sorted(REFERENCES[site])
        return marked(site, Reference(classes[0], location).to_json_obj())

    def stored_metadata(doc, inner):
        location = blob(marked(doc, json.loads(metadata().to_json())))
        return blob(reference(inner, location))

    record = dict(dataset_identifier=str(UUID(int=5)), dataset_version="v")
    m = stored_metadata("dm", "bm")
    f = gitread.write_tree(repo, [("100644", b"file", stored_metadata("df", "bf"))])
    location = blob(dict(record, dataset_level_metadata=reference("rm", m),
                         file_tree=reference("rf", f)))
    tree = gitread.write_tree(repo, [("100644", ROOT_RECORD.encode(), location)])
    plain = blob(dict(
        record, dataset_level_metadata=Reference.get_none_reference("Metadata").to_json_obj(),
        file_tree=Reference.get_none_reference("FileTree").to_json_obj()))
    entries = [
        dict(primary_data_version="1", time_stamp="0", path="",
             dataset_tree=reference("v1", tree)),
        dict(primary_data_version="2", time_stamp="0", path="",
             dataset_tree=reference("v2", plain))]
    rng.shuffle(entries)
    top = blob(entries)
    version_list = ob.VersionList(realm=repo, reference=Reference("VersionList", top))

    def access(target):
        root = MetadataPath("")
        if target == "X":
            return version_list.get_versioned_element("2", root)[2].dataset_version
        element = version_list.get_versioned_element("1", root)[2]
        mrr = element.get_metadata_root_record(root)
        if target == "M":
            return mrr.get_dataset_level_metadata()
        return mrr.get_file_tree().get_metadata(MetadataPath("file"))

    targets = sorted(case["x"])
    rng.shuffle(targets)
    for target in targets + targets[:1]:
        expected = case["x"][target]
        try:
            result = access(target)
            if target == "X":
                result = result == "v" or result
            else:
                result = result == metadata() or result
        except Exception as e:
            if expected == "object":
                raise Violation(f"right marks, but access to {target} fails: {e!r}")
            continue
        if expected == "error":
            raise Violation(
                f"access to {target} returns an object, marks are {case['m']}")
        if result is not True:
            raise Violation(f"access to {target} returns {result}, marks are {case['m']}")


# --------------------------------------------------------------------------
# Objects that are created with a reference to an object of another class
# --------------------------------------------------------------------------
def class_matrix(repo):
    from dataladmetadatamodel.mtreenode import MTreeNode
    from dataladmetadatamodel.text import Text
    locations = {}
    file_tree = ob.build("ft", {"k": "n", "v": 0, "c": {"a": {"k": "md", "v": 1, "c": {}}}})
    mrr = {"k": "mrr", "v": 0, "c": {}}
    dt = {"k": "n", "v": 0, "c": {"R": mrr}}
    locations["FileTree"] = locations["MTreeNode"] = file_tree.write_out(repo).location
    locations["DatasetTree"] = ob.build("dt", dt).write_out(repo).location
    locations["Metadata"] = metadata().write_out(repo).location
    locations["MetadataRootRecord"] = ob.build("mrr", mrr).write_out(repo).location
    locations["VersionList"] = ob.build(
        "vl", {"k": "vl", "v": 0, "c": {"p": mrr}}).write_out(repo).location
    tvl = ob.build("tvl", {"k": "vl", "v": 0, "c": {"p": dt}})
    locations["TreeVersionList"] = gitread.read_ref(repo, tvl.write_out(repo).location) \
        or tvl.reference.location
    us = ob.build("us", {"k": "us", "v": 0, "c": {"u": {"k": "vl", "v": 0, "c": {"p": mrr}}}})
    us.write_out(repo)
    locations["UUIDSet"] = gitread.read_ref(repo, "refs/datalad/dataset-uuid-set")
    locations["Text"] = Text("text").write_out(repo).location
    make = {
        "FileTree": lambda r: ob.FileTree(realm=repo, reference=r),
        "DatasetTree": lambda r: ob.DatasetTree(realm=repo, reference=r),
        "MTreeNode": lambda r: MTreeNode(Metadata, realm=repo, reference=r),
        "Metadata": lambda r: Metadata(repo, r),
        "MetadataRootRecord": lambda r: ob.MetadataRootRecord(None, None, None, None, repo, r),
        "VersionList": lambda r: ob.VersionList(realm=repo, reference=r),
        "TreeVersionList": lambda r: ob.TreeVersionList(realm=repo, reference=r),
        "UUIDSet": lambda r: ob.UUIDSet(realm=repo, reference=r),
        "Text": lambda r: Text(realm=repo, reference=r)}
    trees = {"FileTree", "DatasetTree", "MTreeNode"}
    # What is stored as JSON-text or with UUIDs as names tells its kind
    typed = {"Metadata", "MetadataRootRecord", "VersionList", "TreeVersionList", "UUIDSet"}
    count = 0
    for cls in sorted(make):
        for named in sorted(CLASSES - {"foreign"}) + ["Foo", "", "object"]:
            for stored in sorted(locations):
                if {cls, named} <= trees or cls == named:
                    right = cls == stored or {cls, stored} <= trees
                    lists = {"VersionList", "TreeVersionList"}
                    if not right and (cls not in typed or {cls, stored} <= lists):
                        continue
                else:
                    right = False
                for use in ("ensure_mapped", "read_in"):
                    obj = make[cls](Reference(named, locations[stored]))
                    what = f"{cls} with reference to class {named!r}, stored: {stored}"
                    for _ in range(2):
                        try:
                            getattr(obj, use)()
                        except Exception as e:
                            if right:
                                raise Violation(f"{what}, is refused: {e!r}")
                        else:
                            if not right:
                                raise Violation(f"{what}, is loaded")
                    count += 1
        for named in sorted(CLASSES - {"foreign"}):
            if named in trees and cls in trees:
                continue
            obj = make[cls](Reference.get_none_reference(named))
            try:
                obj.ensure_mapped()
            except Exception as e:
                if named == cls:
                    raise Violation(f"{cls} with none-reference is refused: {e!r}")
            else:
                if named != cls:
                    raise Violation(f"{cls} with none-reference to class {named} is loaded")
            count += 1
    return count


def replay(name, cases, seed, repo):
    """ all in one process """
    rng = random.Random(f"{seed}-{name}")
    for case in cases:
        if name == "stored":
            check_stored(case, rng, repo)
        else:
            check_document(name, case, rng)
    return len(cases)
