"""
Replay of Sources.tla (P22)
"""
import json
import os
import random
import shutil
from pathlib import Path

import core
import gitread
from behave import Adapter
from core import Violation

from dataladmetadatamodel.metadatasource import (
    ImmediateMetadataSource,
    LocalGitMetadataSource,
    MetadataSource,
)

NAMES = ["plain", "a b", "it's", 'q"x"', "$(touch x)", "ä€", "a;b", "-x", "a\\b", "x'\"y",
         "*", "a\nb", "%s", "~", "a&b|c", "..a", ":c", "{}", "#1", "tab\t"]
CONTENTS = [
    b"", b"\0", b"text\n", b"no newline", b"a\r\nb\r\n", bytes(range(256)), b"\n\n", b" x \n ",
    "äö\u2028".encode(), b"\xff\xfe", b"\x1a", b"x" * 70000, os.urandom(3000),
    b'{"@": {"type": "Metadata"}}', b"$Id$\n", b"\r", b"tree 0\0"]
VALUES = [
    (None, {}), ("text", ["text"]), ({"a": [1, {"b": None}]}, {"a": [1, {"b": 0}]}),
    ({"ä\u2028": "\ud800"}, [[], [[]]]), (1.5, 10 ** 30), ("", False),
    ({"metadata_source_type": "x", "@": {}}, [None])]
FOREIGN = {
    "mark type": ["Metadata", "", None, "localgitmetadatasource", 1],
    "mark version": ["1.0", "", None, 2.0, "2"],
    "type key": ["Unknown", "", None, "local", "Metadata", 5],
    "path": [None, 5, [], {}],
    "object": [None, 5, [], {}]}


class SourceAdapter(Adapter):
    def __init__(self, env, options, rng):
        super().__init__(env, options, rng)
        self.way = os.getcwd()
        self.repos, self.hidden = {}, {}
        names = rng.sample(NAMES, 2)
        for n, r in enumerate("AB"):
            parent = self.base / rng.choice(["x", "y z"]) / str(n)
            path = parent / names[n]
            env.repo(path)
            if rng.random() < 0.3:
                with (path / ".git" / "config").open("a") as f:
                    f.write("\tautocrlf = true\n\tsafecrlf = false\n")
                (path / ".gitattributes").write_text("* text eol=crlf ident\n")
            self.repos[r] = path
        contents = rng.sample(CONTENTS, 3)
        self.blobs = dict(zip(("o1", "o2", "o3"), contents))
        self.ids = {}
        self.scratch = env.repo(self.base / "ids")
        for o, content in self.blobs.items():
            self.ids[o] = gitread.write_object(self.scratch, "blob", content)
        self.ids["t1"] = gitread.write_tree(
            self.scratch, [("100644", b"a", self.ids["o1"])])
        self.names = {v: k for k, v in self.ids.items()}
        self.relative = rng.random() < 0.3
        self.shim = self.base / "shim"
        self.number = 0
        os.chdir(self.base)
        self.stderr = os.dup(2)
        with open(os.devnull, "w") as f:
            os.dup2(f.fileno(), 2)

    def close(self):
        os.chdir(self.way)
        os.dup2(self.stderr, 2)
        os.close(self.stderr)
        super().close()

    def path(self, r):
        if self.relative and self.rng.random() < 0.6:
            return self.repos[r].relative_to(self.base)
        return self.repos[r]

    def source(self, label):
        ident = self.ids[label["o"]]
        if self.rng.random() < 0.2:
            ident += "\n"
        source = LocalGitMetadataSource(self.path(label["r"]), ident)
        if self.rng.random() < 0.4:
            again = MetadataSource.from_json_str(source.to_json_str())
            if not isinstance(again, LocalGitMetadataSource) or again != source \
                    or again.to_json_obj() != source.to_json_obj():
                raise Violation(f"{source.to_json_obj()} is read as {again and vars(again)}")
            source = again
        return source

    def do_put(self, label):
        repo, o = self.repos[label["r"]], label["o"]
        kind, content = gitread.read_object(self.scratch, self.ids[o])
        gitread.write_object(repo, kind, content)

    def do_drop(self, label):
        gitread.object_path(self.repos[label["r"]], self.ids[label["o"]]).unlink()

    def do_hide(self, label):
        path = self.repos[label["r"]]
        if self.rng.random() < 0.5:
            path = path / ".git"
        self.number += 1
        target = self.base / f"hidden{self.number}"
        path.rename(target)
        self.hidden[label["r"]] = path, target

    def do_show(self, label):
        path, target = self.hidden.pop(label["r"])
        target.rename(path)

    def name(self, ident):
        return self.names.get(ident, ident)

    def do_copy(self, label):
        return self.name(self.source(label).copy_object_to(self.path(label["d"])))

    def do_write(self, label, source=None):
        source = source or self.source(label)
        way = self.rng.choice(["file", "text file", "pipe"])
        target = self.base / "out"
        if way == "pipe" and len(self.blobs.get(label["o"], b"")) < 60000:
            r, w = os.pipe()
            try:
                with os.fdopen(w, "wb") as f:
                    source.write_object_to(f)
                with os.fdopen(r, "rb") as f:
                    r, found = None, f.read()
            finally:
                if r is not None:
                    os.close(r)
        else:
            with target.open("w" if way == "text file" else "wb") as f:
                source.write_object_to(f)
            found = target.read_bytes()
        for o, content in self.blobs.items():
            if content == found:
                return o
        return f"{found[:100]!r} ({len(found)} bytes)"

    def faulty(self, operation):
        """ operation with a disturbed command; its result, or None after an error """
        shutil.rmtree(self.shim, ignore_errors=True)
        self.shim.mkdir()
        os.environ.update(
            VS_DIR=str(self.shim), VS_AT=str(self.rng.choice([0, 0, 1, 1, 2])),
            VS_MODE=self.rng.choice(["fail", "late", "cut"]), VS_TIMES=self.rng.choice(["1", "-1"]))
        try:
            return operation()
        except Violation:
            raise
        except Exception:
            return None
        finally:
            for key in ("VS_DIR", "VS_AT", "VS_MODE", "VS_TIMES"):
                os.environ.pop(key)

    def do_copyfault(self, label):
        result = self.faulty(lambda: self.do_copy(label))
        if result is not None:
            if result != label["o"] or \
                    self.ids[label["o"]] not in core.loose_objects(self.repos[label["d"]]):
                raise Violation(f"a command failed, the result is {result}, but not stored")
        return self.do_copy(label)

    def do_writefault(self, label):
        result = self.faulty(lambda: self.do_write(label))
        if result not in (None, label["o"]):
            raise Violation(f"a command failed, no error, but {result} was written")
        return self.do_write(label)

    def do_describe(self, label):
        rng = self.rng
        if label["t"] == "local":
            source = LocalGitMetadataSource(Path("/a/b c"), self.ids["o1"])
        else:
            source = ImmediateMetadataSource(rng.choice(VALUES)[0])
        obj = json.loads(source.to_json_str())
        keys = {"@": "@", "type key": MetadataSource.TYPE_KEY, "path": "git_repository_path",
                "object": "object_reference", "content": "content"}
        for part in label["foreign"]:
            if part == "mark type":
                obj["@"]["type"] = rng.choice(FOREIGN[part])
            elif part == "mark version":
                obj["@"]["version"] = rng.choice(FOREIGN[part])
            else:
                other = {"local": "ImmediateMetadataSource",
                         "immediate": "LocalGitMetadataSource"}[label["t"]]
                obj[keys[part]] = rng.choice(
                    FOREIGN[part] + ([other] if part == "type key" else []))
        for part in label["missing"]:
            if part.startswith("mark "):
                obj["@"].pop(part[5:])
        for part in label["missing"]:
            if part in keys:
                obj.pop(keys[part], None)
        if rng.random() < 0.05 and label["res"] == "none":
            obj = rng.choice([[], [obj], "text", 1, None])
        readers = [MetadataSource]
        if isinstance(obj, dict):
            readers.append(type(source))
        reader = rng.choice(readers)
        try:
            if rng.random() < 0.5:
                result = reader.from_json_obj(obj)
            else:
                result = reader.from_json_str(json.dumps(obj))
        except Exception as e:
            if label["res"] == "source":
                raise
            return "none"
        if result is None:
            return "none"
        if result != source or type(result) is not type(source):
            raise Violation(f"{obj} is read as {vars(result)}")
        return "source"

    def do_immediate(self, label):
        value, other = self.rng.choice(VALUES)[::1 if label["v"] == 1 else -1]
        text = json.dumps(value)
        source = ImmediateMetadataSource(json.loads(text))
        for again in (MetadataSource.from_json_str(source.to_json_str()),
                      ImmediateMetadataSource.from_json_obj(source.to_json_obj()),
                      source.deepcopy()):
            if not isinstance(again, ImmediateMetadataSource) or again != source \
                    or json.dumps(again.content) != text:
                raise Violation(f"source with content {text} is read as {again and vars(again)}")
        copied = source.deepcopy()
        if isinstance(copied.content, dict):
            copied.content["new"] = 1
        elif isinstance(copied.content, list):
            copied.content.append(1)
        if json.dumps(source.content) != text:
            raise Violation(f"change of a copy changed the source: {source.content}")
        if source == ImmediateMetadataSource(other):
            raise Violation(f"source with {text} is equal to one with {other}")
        if source == LocalGitMetadataSource(Path("/a"), "b"):
            raise Violation("sources of different types are equal")
        target = self.base / "immediate"
        with target.open("w") as f:
            source.write_object_to(f)
        if json.dumps(json.loads(target.read_text())) != text:
            raise Violation(f"source with content {text} writes {target.read_text()!r}")

    def observe(self, state, label):
        for r, path in self.repos.items():
            if r in self.hidden:
                hidden_path, target = self.hidden[r]
                if path.exists() and hidden_path == path or (path / ".git").exists():
                    raise Violation(f"{path} was created")
                continue
            found = {self.name(i) for i in core.loose_objects(path)}
            if found != set(state["has"][r]):
                raise Violation(
                    f"objects in repository {r}: {sorted(found)}, expected {state['has'][r]}")
