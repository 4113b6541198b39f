""" Recording of flushes of object references, for RefStoreTrace.tla (P13, P14) """
import json
import os
import random
import shutil
import time
from pathlib import Path

import core
import gitread
from core import Violation
from server import Server, ServerError

from dataladmetadatamodel.mapper.gitmapper import objectreference

CURRENT = "refs/datalad/object-references-2.0"
LEGACY = {"trees": "refs/datalad/object-references/trees",
          "blobs": "refs/datalad/object-references/blobs"}
MODES = {"trees": "40000", "blobs": "100644"}


class Process:
    """ What one process does """
    def __init__(self, directory):
        os.chdir(directory)

    def add(self, kind, ident, realm, as_path):
        add = (objectreference.add_tree_reference if kind == "trees"
               else objectreference.add_blob_reference)
        if realm is None:
            add(ident)
        else:
            add(ident, Path(realm) if as_path else realm)

    def flush(self, realm):
        objectreference.flush_object_references(Path(realm))


class World:
    """ Repositories, processes, and a record of what happens """
    def __init__(self, env, rng, repos="AB", procs="pq"):
        self.env, self.rng = env, rng
        self.base = env.mkdir("refs")
        self.repos = {r: env.repo(self.base / r) for r in repos}
        for r in repos:
            os.symlink(self.repos[r], self.base / f"link{r}")
            (self.base / f"hidden{r}").mkdir()
        self.procs = {}
        for p in procs:
            (self.base / f"shim{p}").mkdir()
            self.new(p)
        self.tokens = self.references()
        self.names = {(MODES[kind], ident): x for x, (kind, ident) in self.tokens.items()}
        self.legacy_old = set()
        self.broken = {}
        self.events = []

    def references(self):
        """ ids that share beginnings, in all ways the store can be split """
        rng, result = self.rng, {}
        alphabet = rng.choice(["0123456789abcdef", "01"])

        def digits(n):
            return "".join(rng.choice(alphabet) for _ in range(n))
        while len(result) < 8:
            if result and rng.random() < 0.8:
                base = rng.choice(list(result.values()))[1]
                n = rng.choice([1, 2, 3, 6, 9, 12, 38, 39])
                ident = base[:n] + digits(40 - n)
            else:
                ident = digits(40)
            if ident not in [i for _, i in result.values()]:
                result[str(len(result) + 1)] = (rng.choice(["trees", "blobs"]), ident)
        return result

    def new(self, p):
        old = self.procs.pop(p, None)
        if old:
            old.kill()
        self.procs[p] = Server(lambda: Process(self.base))

    def spelling(self, r):
        repo = self.repos[r]
        return self.rng.choice([
            repo, repo, repo, os.path.relpath(repo, self.base), str(self.base / f"link{r}"),
            repo + "/.", str(self.base / "shimp" / ".." / r)])

    # observation
    def store(self, r, ref):
        found = gitread.read_store(
            self.repos[r], ref, [self.base / f"hidden{r}"])
        if found is None:
            return dict(ex=False, s=[])
        return dict(ex=True, s=sorted(self.names.get(e, f"? {e}") for e in found))

    def legacy_store(self, r, kind):
        root = gitread.read_ref(self.repos[r], LEGACY[kind])
        if root is None:
            return dict(ex=False, s=[])
        entries = gitread.parse_tree(gitread.read_object(self.repos[r], root)[1])
        return dict(ex=True, s=sorted(
            self.names.get((m, i), f"? {m} {i}") for m, _, i in entries))

    def observe(self):
        try:
            return {r: dict(cur=self.store(r, CURRENT),
                            **{k: self.legacy_store(r, k) for k in LEGACY})
                    for r in self.repos}
        except gitread.Missing as e:
            raise Violation(f"a store is not complete: {e} is missing", events=self.events)

    def event(self, e, **fields):
        self.events.append(dict(e=e, obs=self.observe(), **fields))

    # operations
    def add(self, p, x, r):
        kind, ident = self.tokens[x]
        self.procs[p].call("add", kind, ident, r and self.spelling(r), self.rng.random() < .5)
        self.event("add", p=p, x=x, r=r or "?")

    def legacy(self, r, kind, xs):
        repo = self.repos[r]
        root = gitread.write_tree(repo, [
            (MODES[kind], self.tokens[x][1].encode(), self.tokens[x][1]) for x in xs])
        path = gitread.git_dir(repo) / LEGACY[kind]
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(root + "\n")
        self.event("legacy", r=r, k=kind, s=xs)

    def break_store(self, r, how):
        """ make the store unreadable: its root, or everything below """
        repo = self.repos[r]
        root = gitread.read_ref(repo, CURRENT)
        trees, todo = {root}, [root]
        while todo:
            for mode, name, child in gitread.parse_tree(
                    gitread.read_object(repo, todo.pop())[1]):
                if mode == "40000" and len(name) < 31 and child not in trees:
                    trees.add(child)
                    todo.append(child)
        if how == "inner":
            trees.remove(root)
        else:
            trees = {root}
        legacy = {gitread.read_ref(repo, ref) for ref in LEGACY.values()}
        moved = [t for t in trees if t not in legacy and gitread.object_path(repo, t).exists()]
        if root in legacy or not moved:
            return
        damage = self.rng.random() < 0.4
        self.broken[r] = (how, moved)
        for ident in moved:
            path = gitread.object_path(repo, ident)
            path.rename(self.base / f"hidden{r}" / ident)
            if damage:
                path.write_bytes(b"damaged")
        self.event("break", r=r, how=how)

    def repair(self, r):
        how, moved = self.broken.pop(r)
        for ident in moved:
            path = gitread.object_path(self.repos[r], ident)
            if path.exists():
                path.unlink()
            (self.base / f"hidden{r}" / ident).rename(path)
        self.event("repair", r=r)

    def shim(self, p, **settings):
        directory = self.base / f"shim{p}"
        for f in directory.iterdir():
            f.unlink()
        return dict(VS_DIR=str(directory), VS_PID=str(self.procs[p].pid), **settings)

    def commands(self, p):
        try:
            return int((self.base / f"shim{p}" / "count").read_text())
        except FileNotFoundError:
            return 0

    def flush(self, p, r, at=None, mode=None, times=1):
        server = self.procs[p]
        environment = self.shim(p, VS_AT=str(at), VS_MODE=mode, VS_TIMES=str(times)) \
            if mode else self.shim(p, VS_AT=None, VS_MODE=None, VS_TIMES=None)
        self.event("begin", p=p, r=r)
        try:
            server.call("flush", self.spelling(r), environment=environment, timeout=60)
            self.event("ok", p=p)
        except ServerError as e:
            fault = mode is not None and self.commands(p) > at
            if server.alive:
                self.event("err", p=p, fault=fault, error=str(e)[:200])
            else:
                if not fault:
                    raise core.MachineryError(f"process ended: {e}")
                self.event("kill", p=p)
                self.new(p)

    def close(self):
        for server in self.procs.values():
            server.kill()
        shutil.rmtree(self.base, ignore_errors=True)


def record(env, seed, steps):
    """ A random history of sequential operations, with faults """
    rng = random.Random(seed)
    world = World(env, rng)
    faults = {}
    try:
        for _ in range(steps):
            r, p = rng.choice("AAAB"), rng.choice("ppq")
            if rng.random() < 0.05 and r not in world.broken:
                core.pack(world.repos[r], objects=False)
            choice = rng.random()
            if r in world.broken and rng.random() < 0.4:
                world.repair(r)
            elif choice < 0.12:
                kind = rng.choice(["trees", "blobs"])
                if gitread.read_ref(world.repos[r], LEGACY[kind]) is None:
                    xs = [x for x, (k, _) in world.tokens.items() if k == kind]
                    world.legacy(r, kind, rng.sample(xs, rng.randint(0, len(xs))))
            elif choice < 0.2:
                if r not in world.broken and gitread.read_ref(world.repos[r], CURRENT):
                    world.break_store(r, rng.choice(["root", "inner"]))
            elif choice < 0.25:
                world.new(p)
                world.event("kill", p=p)
            elif choice < 0.6:
                world.add(p, rng.choice(list(world.tokens)),
                          r if rng.random() < 0.9 else None)
            elif rng.random() < 0.5:
                world.flush(p, r)
            else:
                mode = rng.choice(["fail", "late", "die", "dlate", "cut", "kill", "klate"])
                at = int(rng.expovariate(0.2))
                world.flush(p, r, at, mode, rng.choice([1, 1, 3, -1]))
                last = world.events[-1]["e"]
                faults[f"{mode} {last}"] = faults.get(f"{mode} {last}", 0) + 1
        for r in list(world.broken):
            world.repair(r)
        for r in world.repos:
            for p in world.procs:
                world.flush(p, r)
        return dict(events=world.events, faults=faults)
    finally:
        world.close()


def validate(check, part, histories, procs="pq", repos="AB"):
    """ Let TLC decide whether recorded histories are behaviours of RefStore """
    unknown = {x for h in histories for e in h for o in e["obs"].values()
               for k in ("cur", "trees", "blobs") for x in o[k]["s"] if x.startswith("?")}
    result = core.run_tlc(
        check.env, "RefStoreTrace", dict(
            Procs=set(procs), Repos=set(repos), Refs={str(n) for n in range(1, 9)} | unknown,
            MaxBegin=0, MaxEnv=0, Fix={"lock", "legacy", "keep"}, TraceFile="trace.json"),
        spec="TraceSpec", workers=1, constraints=["Progress"], postcondition="Report",
        extra_files={"trace.json": json.dumps(histories)})
    if not result.ok:
        check.model_error(part, result)
    for line in result.lines:
        if line.startswith("BAD "):
            number, done = map(int, line[4:].split())
            history = histories[number - 1]
            check.violation(part, dict(history=history[:done + 1]),
                            f"recorded event {history[done]} is no step of the specification, "
                            f"after {history[max(0, done - 4):done]}")
    check.coverage["traces_validated_against_impl"] += len(histories)
    check.coverage["states"] += result.distinct
    check.coverage["transitions"] += result.states
    check.add(part, histories=len(histories), events=sum(map(len, histories)),
              tlc_distinct_states=result.distinct)


# --------------------------------------------------------------------------
# Flushes at the same time
# --------------------------------------------------------------------------
class Parallel(World):
    """ The processes stop before every storage command """
    def __init__(self, env, rng):
        super().__init__(env, rng, "A", "pqs")
        self.running = {}       # process -> number of its next command
        self.blocked = set()

    def start(self, p):
        environment = self.shim(p, VS_AT="0", VS_MODE="wait", VS_TIMES="-1")
        self.event("begin", p=p, r="A")
        self.procs[p].start("flush", self.spelling("A"), environment=environment)
        self.running[p] = 0
        self.wait(p)

    def stopped(self, p):
        return (self.base / f"shim{p}" / f"at.{self.running[p]}").exists()

    def wait(self, p, timeout=0.3):
        """ until the process ends, stops at a command, or seems to wait for a lock """
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if self.look(p):
                return
            time.sleep(0.001)
        self.blocked.add(p)

    def look(self, p):
        if self.procs[p].ready():
            self.blocked.discard(p)
            del self.running[p]
            try:
                self.procs[p].result()
                self.event("ok", p=p)
            except ServerError as e:
                self.event("err", p=p, fault=False, error=str(e)[:300])
            return True
        if self.stopped(p):
            self.blocked.discard(p)
            return True
        return False

    def go(self, p):
        number = self.running[p]
        self.running[p] = number + 1
        (self.base / f"shim{p}" / f"go.{number}").touch()
        self.wait(p)
        if p in self.running:
            self.event("look", p=p)

    def poll(self):
        for p in list(self.blocked):
            if self.look(p) and p in self.running:
                self.event("look", p=p)

    def kill(self, p):
        """ together with the command that it is waiting for """
        directory = self.base / f"shim{p}"
        if p in self.running and self.stopped(p):
            while not (directory / f"at.{self.running[p]}").read_text():
                time.sleep(0.001)
            os.kill(int((directory / f"at.{self.running[p]}").read_text()), 9)
        elif p in self.running:
            return              # not known where it is
        self.new(p)
        self.running.pop(p, None)
        self.event("kill", p=p)

    def finish(self):
        end = time.monotonic() + 60
        while self.running:
            for p in list(self.running):
                if p in self.running and p not in self.blocked:
                    self.go(p)
            self.poll()
            if self.running and not set(self.running) - self.blocked:
                time.sleep(0.005)
                if time.monotonic() > end:
                    raise Violation("flushes do not end", events=self.events)


def record_parallel(env, seed, steps):
    rng = random.Random(seed)
    world = Parallel(env, rng)
    kills = rng.random() < 0.4
    try:
        if rng.random() < 0.5:
            for kind in LEGACY:
                xs = [x for x, (k, _) in world.tokens.items() if k == kind]
                world.legacy("A", kind, rng.sample(xs, rng.randint(0, len(xs))))
        for _ in range(steps):
            world.poll()
            p = rng.choice("pqs")
            if p not in world.running:
                if rng.random() < 0.6:
                    world.add(p, rng.choice(list(world.tokens)), "A")
                else:
                    world.start(p)
            elif p not in world.blocked:
                if kills and rng.random() < 0.04:
                    world.kill(p)
                else:
                    for _ in range(rng.choice([1, 1, 2, 5, 12])):
                        if p in world.running and p not in world.blocked:
                            world.go(p)
        world.finish()
        for p in world.procs:
            world.flush(p, "A")
        return world.events
    finally:
        for p in world.running:
            if world.stopped(p):
                (world.base / f"shim{p}" / f"go.{world.running[p]}").touch()
        world.close()
