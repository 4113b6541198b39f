""" Adapter for Remote.tla (P17) """
import hashlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import time
from pathlib import Path

import core
from behave import Adapter
from core import MachineryError, Violation, loose_objects

# Pairs of URLs: similar ones, and different protocols
URLS = [
    ("https://h.example/a", "https://h.example/b"),
    ("https://h.example/a/b", "https://h.example/a_b"),
    ("https://h.example/a", "https://h.example/a/a"),
    ("https://h.example/A", "https://h.example/a"),
    ("http://h.example/a", "https://h.example/a"),
    ("git@h.example:a/b", "git@h.example:a-b"),
    ("ssh://h.example/a.git", "ssh://h.example/a"),
    ("git://h.example/a", "ssh://h.example/a"),
    ("https://h.example/a?x=1", "https://h.example/a?x=2"),
    ("https://h.example/" + "x" * 200 + "1", "https://h.example/" + "x" * 200 + "2"),
    ("https://user@h.example/a", "https://h.example/user@a"),
    ("https://h.example/a%20b", "https://h.example/a+b"),
    ("https://h.example/\u00e4", "https://h.example/a")]


class SessionError(Exception):
    pass


class Process:
    def __init__(self, env):
        self.process = subprocess.Popen(
            [sys.executable, str(Path(__file__).with_name("remotesession.py"))],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, text=True)

    def call(self, name, *args):
        self.send(name, *args)
        return self.receive()

    def send(self, name, *args):
        self.process.stdin.write(json.dumps([name, args]) + "\n")
        self.process.stdin.flush()

    def receive(self):
        line = self.process.stdout.readline()
        if not line:
            raise MachineryError(f"session ended: {self.process.wait()}")
        answer = json.loads(line)
        if "violation" in answer:
            raise Violation(answer["violation"])
        if "error" in answer:
            raise SessionError(answer["error"])
        return answer["ok"]

    def kill(self):
        self.process.kill()
        self.process.wait()
        self.process.stdin.close()
        self.process.stdout.close()

    def close(self):
        self.process.stdin.close()
        self.process.wait()
        self.process.stdout.close()


class RemoteAdapter(Adapter):
    def start(self, state):
        self.cache = self.base / "cache"
        self.cache.mkdir()
        self.log = self.base / "log"
        self.log.mkdir()
        repeat, _, index = self.options["index"].rpartition("-")
        urls = list(URLS[(int(index) + int(repeat or 0)) % len(URLS)])
        self.rng.shuffle(urls)
        self.path, self.realm = {}, {}
        config = Path(os.environ["GIT_CONFIG_GLOBAL"]).read_text()
        for r in self.options["remotes"]:
            # GitHub and others allow this
            self.path[r] = self.env.repo(self.base / f"remote-{r}")
            self.realm[r] = urls.pop()
            config += f'[url "{self.path[r]}"]\n\tinsteadOf = "{self.realm[r]}"\n'
        for r in self.options["locals"]:
            self.path[r] = self.realm[r] = self.env.repo(self.base / f"local-{r}")
        (self.base / "gitconfig").write_text(config)
        self.environment = env = dict(
            os.environ, XDG_CACHE_HOME=str(self.cache),
            GIT_CONFIG_GLOBAL=str(self.base / "gitconfig"),
            VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"))
        self.sessions = {s: Process(dict(env, VS_DIR=str(self.log)))
                         for s in self.options["sessions"]}
        self.publisher = Process(env)
        for x in self.options["ready"] or ():
            for r in self.path:
                self.publisher.call("publish", self.path[r], "tvl", ("", "1"), x)
        self.count = 0

    def close(self):
        for process in (*getattr(self, "sessions", {}).values(), getattr(self, "publisher", None)):
            if process:
                process.close()
        super().close()

    def away(self, r):
        return Path(self.path[r] + "-away")

    def place(self, r):
        return self.path[r] if Path(self.path[r]).exists() else str(self.away(r))

    def photo(self):
        """ all files of the remote repositories, and what is in them """
        result = {}
        for r in self.options["remotes"]:
            base = Path(self.place(r))
            for path in base.rglob("*"):
                if path.is_file():
                    result[r, str(path.relative_to(base))] = hashlib.sha1(
                        path.read_bytes()).hexdigest()
        return result

    def fetches(self):
        try:
            lines = (self.log / "log").read_text().splitlines()
        except FileNotFoundError:
            lines = []
        new, self.count = lines[self.count:], len(lines)
        return [line for line in new if "\tfetch\t" in line]

    def perform(self, label, before, after):
        op = label["op"]
        if "s" not in label:
            return getattr(self, "do_" + op)(label)
        photo = self.photo() if self.rng.random() < 0.5 or op == "write" else None
        try:
            return getattr(self, "do_" + op)(label)
        finally:
            made = self.fetches()
            if len(made) > label["n"]:
                raise Violation(f"fetched {len(made)} times, {label['n']} are needed: {made}")
            if photo is not None and self.photo() != photo:
                changed = {k for k, v in set(photo.items()) ^ set(self.photo().items())}
                raise Violation(f"the remote was changed: {sorted(changed)[:5]}")

    def check_result(self, label, result, before, after):
        if "res" not in label:
            return
        if label["op"] == "copy":
            wanted = [list(x) for x in label["res"]]
            result = sorted(result)
            if result != sorted(wanted):
                raise Violation(f"the copy has {result}, expected {sorted(wanted)}")
            return
        super().check_result(label, result, before, after)

    def call(self, label, name, *args):
        return self.sessions[label["s"]].call(name, *args)

    def do_publish(self, label):
        place = self.place(label["r"])
        self.publisher.call("publish", place, label["w"], label["k"], label["x"])
        if self.rng.random() < 0.25:
            core.pack(place)

    def do_remove(self, label):
        name = {"tvl": "dataset-tree-version-list", "us": "dataset-uuid-set"}[label["w"]]
        core.git(self.place(label["r"]), "update-ref", "-d", f"refs/datalad/{name}")

    def do_reach(self, label):
        r = label["r"]
        if label["on"]:
            self.away(r).rename(self.path[r])
        else:
            Path(self.path[r]).rename(self.away(r))

    def do_wipe(self, label):
        if self.rng.random() < 0.5:
            shutil.rmtree(self.cache, ignore_errors=True)
            return
        for path in list(self.cache.rglob(".git")):
            shutil.rmtree(path.parent)

    def do_load(self, label):
        return self.call(label, "load", self.realm[label["r"]])

    def do_broken(self, label):
        self.call(label, "disturb", "fetch", "fail")
        try:
            return self.call(label, "load", self.realm[label["r"]])
        finally:
            self.call(label, "undisturbed")

    def do_crash(self, label):
        session = self.sessions[label["s"]]
        session.call("disturb", "init", "wait")
        session.send("load", self.realm[label["r"]])
        end = time.monotonic() + 60
        while not (waiting := list(self.log.glob("at.*"))):
            if select.select([session.process.stdout], [], [], 0.002)[0]:
                break
            if time.monotonic() > end:
                raise MachineryError("the session neither creates a cache nor loads")
        if waiting:
            number = waiting[0].name.split(".")[1]
            line = [x for x in (self.log / "log").read_text().splitlines()
                    if x.startswith(number + "\t")][0]
            pid = 0
            while not pid:
                pid = int(waiting[0].read_text() or 0)
        session.kill()
        if waiting:
            os.kill(pid, signal.SIGKILL)
            waiting[0].unlink()
            self.begin(Path(line.split("\t")[-1]))
        self.sessions[label["s"]] = Process(dict(self.environment, VS_DIR=str(self.log)))

    def begin(self, path):
        """ the first steps of git init """
        steps = self.rng.randrange(5)
        if steps == 0:
            return
        if steps > 2:
            subprocess.run([os.environ["VS_GIT"], "init", "-q", str(path)], check=True)
            shutil.rmtree(path / ".git/objects")
            if steps == 3:
                for name in ("HEAD", "config"):
                    (path / ".git" / name).unlink()
            return
        path.mkdir(parents=True, exist_ok=True)
        if steps > 1:
            (path / ".git").mkdir(exist_ok=True)

    def do_access(self, label):
        return self.call(label, "access", label["w"], label["k"], label["part"])

    def do_change(self, label):
        self.call(label, "change", label["w"], label["k"], label["part"], label["x"])

    def do_write(self, label):
        try:
            self.call(label, "write", label["w"])
        except SessionError:
            # there is nothing to write, it may be refused nevertheless
            if not label["ok"]:
                raise

    def do_unload(self, label):
        self.call(label, "unload", label["w"])

    def do_copy(self, label):
        target = self.env.repo(self.base / f"copy{random.random()}")
        try:
            return self.call(label, "copy", label["w"], target)
        finally:
            shutil.rmtree(Path(target))


OPS = {"publish", "remove", "reach", "wipe", "load", "access", "change", "write", "unload", "copy", "broken", "crash"}


def specs(thorough, scale=1.0):
    n = 8 if thorough else 1
    base = dict(
        module="Remote", invariants=["Apart", "Genuine"],
        properties=["Current", "ReadOnly", "Lazy", "AtHand"], adapter=RemoteAdapter)

    def part(name, sessions, remotes, local, count, steps, level=1000, **more):
        more.setdefault("ops", OPS)
        simulate = dict(simulate=int(count * n * scale), depth=60) if count else {}
        return dict(base, part=name, constants=dict(
            Sessions=set(sessions), Remotes=set(remotes), Locals=set(local),
            Which=more.get("which", {"tvl", "us"}), Versions=set(more.get("versions", "12")), Uuids=set(more.get("uuids", "uw")),
            Values=more.get("values", {1, 2, 3} if count else {1, 2}), Ops=more["ops"], MaxLevel=level,
            Sample=bool(count), Ready=set(more.get("ready", ()))),
            options=dict(ready=more.get("ready"), remotes=sorted(remotes), locals=sorted(local),
                         sessions=sorted(sessions)),
            length=50, steps=int(steps * n * scale), **simulate)
    return [
        part("one", "s", "A", "", 0, 1200, level=7 if thorough else 6, versions="1", uuids="u",
             ops=OPS - {"change", "write", "copy"}),
        # remotes with the same objects
        dict(part("same", "s", "AB", "", 0, 250, level=6, versions="1", which={"tvl"}, values={1},
                  ready={1}, ops={"load", "access", "reach"}), repeat=len(URLS)),
        part("two remotes", "s", "AB", "", 80, 2500),
        part("two sessions", "st", "A", "", 60, 2000),
        part("mixed", "st", "AB", "L", 80, 2500)]


def models(thorough):
    """ checked with TLC only """
    return [dict(
        Sessions={"s"}, Remotes={"A", "B"}, Locals=set(), Which={"tvl", "us"}, Versions={"1"}, Uuids={"u"},
        Values={1, 2}, Ops=OPS, MaxLevel=8 if thorough else 6, Sample=False, Ready=set()), dict(
        Sessions={"s", "t"}, Remotes={"A"}, Locals=set(), Which={"tvl", "us"}, Versions={"1", "2"}, Uuids={"u"},
        Values={1, 2}, Ops=OPS, MaxLevel=7 if thorough else 5, Sample=False, Ready=set())]
