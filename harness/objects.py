"""
Binding of the content notation of the specifications to objects of the code
under test, through its public interface.

Content: {"k": kind, "v": value, "c": {name: content}} and {"k": "none"}, kinds:
  md metadata, tx text, n tree node, ft file tree, dt dataset tree,
  mrr metadata root record, vl version list, tvl tree version list, us UUID set
"""
import itertools
from uuid import UUID

from dataladmetadatamodel.common import get_top_level_metadata_objects
from dataladmetadatamodel.datasettree import DatasetTree
from dataladmetadatamodel.filetree import FileTree
from dataladmetadatamodel.metadata import (
    ExtractorConfiguration, Metadata, MetadataInstance)
from dataladmetadatamodel.metadatapath import MetadataPath
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
from dataladmetadatamodel.mtreenode import MTreeNode
from dataladmetadatamodel.text import Text
from dataladmetadatamodel.uuidset import UUIDSet
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList
from dataladmetadatamodel.mapper.reference import Reference

from core import Violation

turns = itertools.count()
TREES = ("n", "ft", "dt")
NONE = {"k": "none"}
ROOT_RECORD = ".datalad_metadata_root_record"

# What the names and identifiers of the specifications stand for, see `use_names`
NAMES = [
    dict(p=("v1", "", "11.5"), q=("v1", "pre/fix", "12.5"), w=("v2", "", "13.5"),
         u=0x11 << 100, v=0x22 << 100, id=0x77 << 90, version="0123abcd"),
    dict(p=("\u00e9 'v\"", "", "0"), q=("\u00e9 'v\"", " /\u00e4\\", ""),
         w=("", "", "1647435123.0012345"), u=0, v=(1 << 128) - 1, id=1, version=""),
    dict(p=("1" * 40, "", "2"), q=("1" * 40, ".d/d.", "2"), w=("1" * 39, "", "1"),
         u=1 << 64, v=1 << 63, id=(1 << 128) - 1, version="a\u2028b\r\n"),
    dict(p=("None", "None", "None"), q=("null", "None", ""), w=("None", "", ""),
         u=2, v=3, id=None, version=None)]
VERSIONS, VERSION_NAMES, UUIDS, UUID_NAMES, RECORD = {}, {}, {}, {}, {}


def use_names(number):
    table = NAMES[number]
    VERSIONS.update({k: table[k] for k in "pqw"})
    UUIDS.update(u=UUID(int=table["u"]), w=UUID(int=table["v"]))
    RECORD.update(id=None if table["id"] is None else UUID(int=table["id"]),
                  version=table["version"])
    for names, back in (({k: v[:2] for k, v in VERSIONS.items()}, VERSION_NAMES),
                        (UUIDS, UUID_NAMES)):
        back.clear()
        back.update({v: k for k, v in names.items()})


use_names(0)


def file_name(kind_or_dt, name):
    return ROOT_RECORD if name == "R" and kind_or_dt else name


def kid_kind(kind, name, content, leaf="md"):
    if kind in TREES:
        return content["k"]
    if kind == "mrr":
        return "md" if name == "M" else "ft"
    if kind in ("vl", "tvl"):
        return "mrr" if content["k"] == "mrr" else "dt"
    return "vl"


# What the values of the specifications stand for in texts and metadata
TEXTS = [
    "text {}", "line\r\n{}\rend\n", "\n\n{}\n", "\u00e4\u2028\x85{}\U0001f600", "{}", "\x00{}\x1a",
    " {} ", "{{\"class_name\": {}}}", "\ufeff{}\t", "x" * 70000 + "{}"]
MARKS = [
    dict(), dict(stamp=0, author="\u00c4. \"U\"", params={"a": {"b": [1, None]}, "": "\r\n"}),
    dict(stamp=1647435123.0012345, ex="a/b \u00e9", version="", params={}),
    dict(ex="metalad_core", mail="", params={"z": 1, "a": 2.5}, wrap=["\r\n", {"x": "\u2028"}]),
    dict(params={"p": ["x" * 5000]}, wrap="x" * 150000)]
style = {"text": TEXTS[0], "mark": MARKS[0], "names": 0}


def set_style(rng):
    style["text"] = rng.choice(TEXTS) if rng.random() < 0.7 else TEXTS[0]
    style["mark"] = rng.choice(MARKS)
    style["names"] = rng.randrange(len(NAMES))
    use_names(style["names"])


def use_style(other):
    """ in another process """
    style.update(other)
    use_names(style["names"])


def text_of(value):
    return style["text"].format(value)


def run_of(value):
    """ extractor, time stamp, author, email, version, parameters, content """
    mark = style["mark"]
    content = {"v": value}
    if "wrap" in mark:
        content["wrap"] = mark["wrap"]
    return (
        mark.get("ex", "ex"), mark.get("stamp", 1.25), mark.get("author", "A. Uthor"),
        mark.get("mail", "a@example.com"), mark.get("version", "1"),
        mark.get("params", {"p": "x"}), content)


def run_metadata(metadata, value):
    name, stamp, author, mail, version, params, content = run_of(value)
    configuration = ExtractorConfiguration(version, dict(params))
    if next(turns) % 2 and name in list(metadata.extractors):
        # the set of runs of an extractor is a part of the metadata
        metadata.extractor_runs_for_extractor(name).add_metadata_instance(
            MetadataInstance(stamp, author, mail, configuration, content))
    else:
        metadata.add_extractor_run(stamp, name, author, mail, configuration, content)


def run_at(file_tree, path, value):
    name, stamp, author, mail, version, params, content = run_of(value)
    file_tree.add_extractor_run(
        path, stamp, name, author, mail, ExtractorConfiguration(version, dict(params)), content)


def build(kind, content, in_dt=False, leaf="md"):
    """ New object with the given content """
    kids = {
        n: build(kid_kind(kind, n, c, leaf), c, in_dt or kind == "dt", leaf)
        for n, c in content.get("c", {}).items()}
    if kind == "md":
        metadata = Metadata()
        run_metadata(metadata, content["v"])
        return metadata
    if kind == "tx":
        return Text(text_of(content["v"]))
    if kind in TREES:
        leaf_class = Metadata if kind == "ft" else MetadataRootRecord if kind == "dt" else (
            Text if leaf == "tx" else MetadataRootRecord if in_dt else Metadata)
        node = MTreeNode(leaf_class)
        for name, kid in kids.items():
            node.add_child(
                ROOT_RECORD if name == "R" else name,
                kid.mtree if isinstance(kid, (FileTree, DatasetTree)) else kid)
        return {"n": lambda x: x, "ft": FileTree, "dt": DatasetTree}[kind](node)
    if kind == "mrr":
        return MetadataRootRecord(RECORD["id"], RECORD["version"], kids.get("M"), kids.get("F"))
    if kind in ("vl", "tvl"):
        result = VersionList() if kind == "vl" else TreeVersionList()
        for name, kid in kids.items():
            version, prefix, time_stamp = VERSIONS[name]
            result.set_versioned_element(version, time_stamp, MetadataPath(prefix), kid)
        return result
    if kind == "us":
        result = UUIDSet()
        for name, kid in kids.items():
            result.set_version_list(UUIDS[name], kid)
        return result
    raise ValueError(kind)


def tree(obj):
    """ the node of a tree object """
    return obj.mtree if isinstance(obj, (FileTree, DatasetTree)) else obj


def reference(obj):
    return tree(obj).reference


def first(*readers):
    """ which reader comes first changes: each of them has to load the object """
    return readers[next(turns) % len(readers)]()


def probe(obj):
    """ Content of an object. Loads whatever is not loaded. """
    if obj is None:
        return NONE
    if isinstance(obj, Metadata):
        seen = first(
            obj.ensure_mapped, obj.to_json, lambda: (obj == Metadata(),),
            lambda: list(obj.extractor_runs), lambda: (Metadata() == obj,), lambda: None)
        names = list(obj.extractors)
        if isinstance(seen, str) and seen != obj.to_json():
            return {"k": "md", "v": f"JSON is {seen}, then {obj.to_json()}", "c": {}}
        if isinstance(seen, tuple) and seen != (obj == Metadata(),):
            return {"k": "md", "v": f"empty metadata is equal: {seen}", "c": {}}
        if not names:
            return {"k": "md", "v": -1, "c": {}}
        runs = [
            (name, i.time_stamp, i.author_name, i.author_email,
             i.configuration.version, dict(i.configuration.parameter), i.metadata_content)
            for name, instances in obj.extractor_runs for i in instances]
        if len(runs) == 1:
            value = runs[0][-1].get("v") if isinstance(runs[0][-1], dict) else None
            if runs[0] == run_of(value):
                return {"k": "md", "v": value, "c": {}}
        return {"k": "md", "v": repr(runs), "c": {}}
    if isinstance(obj, Text):
        obj.ensure_mapped()
        text = obj.content
        before, after = style["text"].format("<|>").split("<|>")
        if isinstance(text, str) and text.startswith(before) and text.endswith(after):
            try:
                return {"k": "tx", "v": int(text[len(before):len(text) - len(after)]), "c": {}}
            except ValueError:
                pass
        return {"k": "tx", "v": repr(text)[:200], "c": {}}
    if isinstance(obj, (FileTree, DatasetTree, MTreeNode)):
        first(obj.ensure_mapped, obj.read_in, lambda: None)
        kids = {}
        for path, node in tree(obj).get_paths_recursive(True):
            if len(path) == 1:
                name = path.parts[0]
                content = probe(tree(obj).get_object_at_path(path))
                if content["k"] != "none":
                    kids["R" if name == ROOT_RECORD else name] = content
        return {"k": "n", "v": 0, "c": kids} if kids else NONE
    if isinstance(obj, MetadataRootRecord):
        first(obj.ensure_mapped, obj.get_file_tree, obj.get_dataset_level_metadata)
        metadata, file_tree = obj.get_dataset_level_metadata(), obj.get_file_tree()
        kids = {n: probe(x) for n, x in (("M", metadata), ("F", file_tree)) if x is not None}
        value = 0
        if (obj.dataset_identifier, obj.dataset_version) != (RECORD["id"], RECORD["version"]):
            value = repr((obj.dataset_identifier, obj.dataset_version))
        return {"k": "mrr", "v": value, "c": {n: c for n, c in kids.items() if c["k"] != "none"}}
    if isinstance(obj, VersionList):
        first(obj.ensure_mapped, lambda: len(obj), lambda: None, lambda: list(obj.versions()),
              lambda: list(obj.versioned_elements))
        kids, wrong = {}, 0
        for version, prefix in list(obj.versions_and_prefix_paths()):
            time_stamp, prefix_2, element = obj.get_versioned_element(version, prefix)
            name = VERSION_NAMES.get((version, str(prefix)), f"?{version}:{prefix}")
            if prefix_2 != prefix or time_stamp != VERSIONS.get(name, (0, 0, 0))[2]:
                wrong = f"{prefix_2} {time_stamp}"
            kids[name] = probe(element)
        return {"k": "vl", "v": wrong, "c": kids}
    if isinstance(obj, UUIDSet):
        first(obj.ensure_mapped, lambda: None)
        return {"k": "us", "v": 0, "c": {
            UUID_NAMES.get(uuid, f"?{uuid}"): probe(obj.get_version_list(uuid))
            for uuid in list(obj.uuids())}}
    return {"k": f"?{type(obj).__name__}"}


CLASSES = {
    "md": Metadata, "tx": Text, "ft": FileTree, "dt": DatasetTree,
    "mrr": MetadataRootRecord, "vl": VersionList, "tvl": TreeVersionList, "us": UUIDSet}


def stub(kind, realm, reference, leaf="md", in_dt=False):
    """ Not loaded object """
    reference = Reference(reference.class_name, reference.location)
    if kind in ("md", "tx", "mrr"):
        return CLASSES[kind].get_empty_instance(realm, reference)
    if kind == "n":
        leaf_class = Text if leaf == "tx" else MetadataRootRecord if in_dt else Metadata
        return MTreeNode(leaf_class, realm=realm, reference=reference)
    return CLASSES[kind](realm=realm, reference=reference)


def load_top(kind, realm):
    tvl, us = get_top_level_metadata_objects("git", realm)
    return tvl if kind == "tvl" else us


def same(a, b):
    """ Same content? """
    return canonical(a) == canonical(b)


def canonical(content):
    if content["k"] == "none":
        return ("none",)
    kids = content.get("c") or {}
    if isinstance(kids, list):      # JSON of an empty function
        kids = {}
    return (content["k"], content["v"],
            tuple(sorted((n, canonical(c)) for n, c in kids.items())))
