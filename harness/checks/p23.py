import json
import random
from uuid import UUID

import core
from core import Violation, git, in_child

# what the characters of the specification stand for
ALPHABETS = [
    {"T": "\t", "E": "é"}, {"T": "\x0b", "E": "\udcff"}, {"T": "\x1c", "E": "\u2028"},
    {"T": "\r", "E": "\x85"}, {"T": "\x7f", "E": "\U0001f600"}, {"T": "\x01", "E": "\udce9"},
    {"T": "\x0c", "E": "\u00a0"}, {"T": "\x1b", "E": "\udc80"}]
FIXED = {"Q": '"', "B": "\\", "N": "\n"}


def run(check):
    from dataladmetadatamodel.datasettree import DatasetTree
    from dataladmetadatamodel.filetree import FileTree
    from dataladmetadatamodel.metadata import Metadata
    from dataladmetadatamodel.metadatapath import MetadataPath
    from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
    from dataladmetadatamodel.mtreenode import MTreeNode
    from dataladmetadatamodel.text import Text
    from dataladmetadatamodel.versionlist import VersionList
    from dataladmetadatamodel.mapper.reference import Reference

    t = check.thorough
    lines = []
    check.model(
        "names", "Names", dict(
            Chars={"Q", "B", "N", "T", "E", "n", "t", "1", ".", " "} if t else
            {"Q", "B", "N", "T", "E", "n", ".", " "}, MaxLen=4 if t else 3),
        constraints=["EmitState"], invariants=["Stored", "Survives"], on_line=lines.append)
    names = sorted({tuple(json.loads(line[2:])["n"]) for line in lines})
    check.sample([names[5], names[-7]])
    # in trees of their own: all names, or a sample
    rng = check.rng
    # storing works character by character: several names in sequence are a name
    longer = sorted({
        sum((rng.choice(names) for _ in range(rng.choice([2, 3, 5, 9, 20]))), ())
        for _ in range(400 if t else 160)} - set(names))
    single = longer + ( names if t else [n for n in names if len(n) < 3] + rng.sample(
        [n for n in names if len(n) >= 3], 250))

    def say(name, number):
        table = {**FIXED, **ALPHABETS[number]}
        return "".join(table.get(c, c) for c in name)

    def stored(repo, tree):
        out = git(repo, "ls-tree", "-z", tree, text=False)
        return {
            line.split(b"\t", 1)[1].decode("utf-8", "surrogateescape"): line.split(b" ")[2][:40]
            for line in out.split(b"\0") if line}

    def together(number):
        """ all names in one directory, and each in a directory of its name """
        repo = check.env.repo()
        all_names = [say(n, number) for n in names + longer]
        random.Random(check.seed + number).shuffle(all_names)
        values = {n: f"value {i}" for i, n in enumerate(all_names)}
        for deep in (False, True):
            node = MTreeNode(Text)
            # few directories, they cost a lot of time
            members = all_names[:60] if deep else all_names
            for name in members:
                text = Text(values[name])
                if deep:
                    node.add_child_at(text, MetadataPath(name, name))
                else:
                    node.add_child_at(text, MetadataPath(name))
            reference = node.write_out(repo)
            found = stored(repo, reference.location)
            if set(found) != set(members):
                raise Violation(
                    "names in the stored tree differ: "
                    f"{sorted(set(members) ^ set(found), key=repr)[:10]!r}")

            def read():
                again = MTreeNode(
                    Text, realm=repo, reference=Reference("MTreeNode", reference.location))
                listed = [str(p) for p, _ in again.get_paths_recursive()]
                expected = [f"{n}/{n}" if deep else n for n in members]
                if sorted(listed) != sorted(expected):
                    raise Violation(
                        f"listed names differ: {sorted(set(listed) ^ set(expected))[:10]!r}")
                for name in random.Random(number).sample(members, min(150, len(members))):
                    path = MetadataPath(name, name) if deep else MetadataPath(name)
                    text = again.get_object_at_path(path)
                    if text is None or text.read_in().content != values[name]:
                        raise Violation(f"wrong content at {name!r}")
                return 0

            in_child(read, timeout=300).get()
        return len(all_names)

    def alone(task):
        count = 0
        rng = random.Random(f"{check.seed}-{task}")
        repo = check.env.repo()
        for name in single[task::32]:
            number = rng.randrange(len(ALPHABETS))
            name = say(name, number)
            other = say(rng.choice(names), number)
            path = MetadataPath(name, other)
            if rng.random() < 0.5:
                tree = FileTree()
                tree.add_metadata(path, Metadata())
                tree.add_extractor_run(
                    path, 1.0, "e", "a", "m",
                    _config(), {"name": repr(name)})
                again = FileTree(
                    realm=repo, reference=Reference("FileTree", tree.write_out(repo).location))
                listed = [p for p, _ in again.get_paths_recursive()]
                metadata = again.get_metadata(path)
                if metadata is None or not _content(metadata, repr(name)):
                    raise Violation(f"{path!r} not found after saving")
            else:
                tree = DatasetTree()
                tree.add_dataset(path, MetadataRootRecord(UUID(int=1), "v", None, None))
                vl = VersionList()
                vl.set_versioned_element("v", "1", path, tree)
                vl = VersionList(realm=repo, reference=vl.write_out(repo))
                pairs = list(vl.versions_and_prefix_paths())
                if pairs != [("v", path)]:
                    raise Violation(f"prefix path {path!r} is {pairs} after saving")
                again = vl.get_versioned_element("v", path)[2]
                listed = [p for p, _ in again.dataset_paths]
                if path not in again:
                    raise Violation(f"dataset {path!r} not found after saving")
            if listed != [path] or listed[0].parts != (name, other):
                raise Violation(f"{(name, other)!r} is {listed} after saving")
            count += 1
        return count

    def work(task):
        return (together if task[0] == "all" else alone)(task[1])

    tasks = [("all", n) for n in range(len(ALPHABETS))] + [("one", n) for n in range(32)]
    results = check.run("replay", work, tasks, task_timeout=800)
    check.coverage["traces_validated_against_impl"] = sum(results)
    check.add("replay", names=len(names), longer_names=len(longer), alphabets=len(ALPHABETS), stored_names=sum(results))


def _config():
    from dataladmetadatamodel.metadata import ExtractorConfiguration
    return ExtractorConfiguration("1", {})


def _content(metadata, text):
    return any(
        i.metadata_content == {"name": text}
        for _, instances in metadata.extractor_runs for i in instances)
