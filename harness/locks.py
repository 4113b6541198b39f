""" Recording of locking by several processes, for LockTrace.tla (P14) """
import json
import os
import random
import shutil
import signal
import time
from pathlib import Path

import core
from core import Violation
from server import Server, ServerError, Spare

from dataladmetadatamodel.mapper.gitmapper import objectreference
from dataladmetadatamodel.mapper.gitmapper import utils


class Failure(Exception):
    pass


class Interrupted(Exception):
    """ Waiting was interrupted, as by Ctrl-C """


def interrupt(number, frame):
    if Process.waiting:
        Process.waiting = False
        raise Interrupted()


class Process:
    """ What one process does; times are taken inside of locked sections """
    def __init__(self, directory):
        os.chdir(directory)
        signal.signal(signal.SIGUSR1, interrupt)

    waiting = False

    def lock(self, realm):
        try:
            Process.waiting = True
            utils.lock_backend(Path(realm))
            Process.waiting = False
        except Interrupted:
            return None
        return time.monotonic()

    def unlock(self, realm):
        now = time.monotonic()
        utils.unlock_backend(Path(realm))
        return now

    def section(self, realms, fail):
        """ a locked section, with sections inside, that may fail """
        times = []

        def enter(rest):
            if rest:
                with utils.locked_backend(Path(rest[0])):
                    Process.waiting = False
                    times.append(time.monotonic())
                    try:
                        enter(rest[1:])
                    finally:
                        times.append(time.monotonic())
            elif fail:
                raise Failure()
        try:
            Process.waiting = True
            enter(realms)
        except Interrupted:
            return None
        except Failure:
            pass
        return times

    def flush(self, realm, number):
        """ flushing is a locked section, too """
        start = time.monotonic()
        objectreference.add_blob_reference(f"{number:040x}", Path(realm))
        objectreference.flush_object_references(Path(realm))
        return start


class Waiting:
    def __init__(self, op, r, args):
        self.op, self.r, self.args, self.cancelled = op, r, args, False


class Recorder:
    def __init__(self, env, rng):
        self.env, self.rng = env, rng
        self.base = env.mkdir("locks")
        self.repos = {"A": env.repo(self.base / "A"), "B": str(self.base / "B")}
        os.mkdir(self.repos["B"])         # has no .git yet
        for r, repo in self.repos.items():
            os.symlink(repo, self.base / f"link{r}")
        self.spares = [Spare() for _ in range(3)]
        self.all = ["p", "q", "s", "c", "d", "e"]
        self.unborn = ["c", "d", "e"]
        self.procs = {p: Server(lambda: Process(self.base)) for p in "pqs"}
        self.waits = {}
        self.depth = {}
        self.events = []
        self.number = 0

    def spelling(self, r):
        repo = self.repos[r]
        return self.rng.choice([
            repo, repo, os.path.relpath(repo, self.base), str(self.base / f"link{r}"),
            str(self.base / f"link{r}" / ".." / r), str(self.base / "." / "A" / ".." / r)])

    def event(self, e, at=None, **fields):
        self.events.append((at or time.monotonic(), dict(e=e, **fields)))

    def request(self, p, op, r, *args):
        at = time.monotonic()
        self.event("request", at, p=p, r=r)
        self.procs[p].start(op, *args)
        self.waits[p] = Waiting(op, r, args)

    def answers(self, p):
        """ the process got the lock """
        try:
            result = self.procs[p].result()
        except ServerError as e:
            raise Violation(f"{self.waits[p].op} failed: {e}", trace=e.trace)
        wait = self.waits.pop(p)
        if result is None:
            if not wait.cancelled:
                raise Violation("waiting ended without the lock")
            self.event("cancel", p=p)
        elif wait.op == "lock":
            self.event("grant", result, p=p)
            self.depth[p, wait.r] = self.depth.get((p, wait.r), 0) + 1
        else:
            half = len(result) // 2
            for n, at in enumerate(result):
                if n < half:
                    if n:
                        self.event("request", at - 1e-7, p=p, r=wait.r)
                    self.event("grant", at, p=p)
                else:
                    self.event("release", at, p=p, r=wait.r)

    def owner(self, r):
        """ who should have the lock """
        for (p, s), n in self.depth.items():
            if s == r and n:
                return p
        return None

    def poll(self, timeout):
        end = time.monotonic() + timeout
        while self.waits:
            for p in list(self.waits):
                if self.procs[p].ready():
                    self.answers(p)
            if time.monotonic() > end:
                break
            time.sleep(0.003)

    def settle(self):
        """ locks that are free have to be given to those that wait for them """
        self.poll(0.02 if self.rng.random() < 0.5 else 0.12)
        end = time.monotonic() + 30
        while any(self.owner(w.r) in (None, p) for p, w in self.waits.items()):
            self.poll(0.02)
            if time.monotonic() > end:
                raise Violation(
                    "nobody holds the lock, but a process waits for it",
                    events=[e for _, e in sorted(self.events, key=lambda x: x[0])])

    def step(self):
        rng = self.rng
        free = [p for p in self.procs if p not in self.waits]
        choice, r = rng.random(), rng.choice("AAB")
        if not free or choice < 0.06:
            p = rng.choice(list(self.procs))
            if len(self.procs) > 1 or p in self.waits:
                self.kill(p)
            return
        stuck = [p for p, w in self.waits.items() if self.owner(w.r) not in (None, p)]
        if stuck and rng.random() < 0.25:
            self.cancel(rng.choice(stuck))
            return
        p = rng.choice(free)
        mine = [s for (q, s), n in self.depth.items() if q == p and n]
        if choice < 0.16 and self.unborn:
            c = self.unborn.pop(0)
            self.event("fork", p=p, c=c)
            self.procs[c] = self.procs[p].fork(self.spares[-1 - len(self.unborn)])
        elif choice < 0.2:
            self.refused(p, r)
        elif choice < 0.45 and mine:
            self.unlock(p, rng.choice(mine))
        elif choice < 0.6:
            depth = rng.randint(1, 3)
            self.request(p, "section", r, [self.spelling(r) for _ in range(depth)],
                         rng.random() < 0.5)
        elif choice < 0.7 and mine and "A" in mine:
            self.number += 1
            try:
                self.procs[p].call("flush", self.spelling("A"), self.number)
            except ServerError as e:
                raise Violation(f"flush failed: {e}", trace=e.trace)
        elif not mine or r in mine or self.owner(r) is None:
            self.request(p, "lock", r, self.spelling(r))
        else:
            self.unlock(p, rng.choice(mine))

    def unlock(self, p, r):
        try:
            at = self.procs[p].call("unlock", self.spelling(r))
        except ServerError as e:
            raise Violation(f"release failed: {e}", trace=e.trace,
                            events=[e for _, e in self.events])
        self.depth[p, r] -= 1
        self.event("release", at, p=p, r=r)

    def refused(self, p, r):
        if self.depth.get((p, r)):
            return
        try:
            self.procs[p].call("unlock", self.spelling(r))
        except ServerError:
            self.event("refused", p=p, r=r)
            return
        raise Violation("a lock that is not held was released",
                        events=[e for _, e in self.events])

    def kill(self, p):
        self.event("kill", p=p)
        self.procs.pop(p).kill()
        self.waits.pop(p, None)
        for key in list(self.depth):
            if key[0] == p:
                del self.depth[key]

    def cancel(self, p):
        """ interrupt p, that has to wait, because another process has the lock """
        self.waits[p].cancelled = True
        end = time.monotonic() + 30
        while p in self.waits:
            os.kill(self.procs[p].pid, signal.SIGUSR1)
            if self.procs[p].ready(0.01):
                self.answers(p)
            elif time.monotonic() > end:
                raise Violation("waiting for the lock cannot be interrupted")

    def close(self):
        for server in self.procs.values():
            server.kill()
        shutil.rmtree(self.base, ignore_errors=True)


def record(env, seed, steps):
    recorder = Recorder(env, random.Random(seed))
    try:
        for _ in range(steps):
            recorder.step()
            if not recorder.procs:
                break
            recorder.settle()
        # in the end, everybody who waits gets the lock
        for _ in range(100):
            for (p, r), n in list(recorder.depth.items()):
                while recorder.depth[p, r] and p not in recorder.waits:
                    recorder.unlock(p, r)
            recorder.settle()
            stuck = [p for p in recorder.waits if any(
                n for (q, _), n in recorder.depth.items() if q == p)]
            if stuck:
                recorder.kill(stuck[0])
            elif not recorder.waits and not any(recorder.depth.values()):
                break
        else:
            raise Violation("processes do not get the lock")
        return [e for _, e in sorted(recorder.events, key=lambda x: x[0])]
    finally:
        recorder.close()


def validate(check, part, histories):
    result = core.run_tlc(
        check.env, "LockTrace", dict(
            Procs=set("pqscde"), First=set("pqs"), Repos={"A", "B"}, MaxDepth=100,
            Inherit=False, TraceFile="trace.json"),
        spec="TraceSpec", workers=1, constraints=["Progress"], postcondition="Report",
        extra_files={"trace.json": json.dumps(histories)})
    if not result.ok:
        check.model_error(part, result)
    for line in result.lines:
        if line.startswith("BAD "):
            number, done = map(int, line[4:].split())
            history = histories[number - 1]
            check.violation(part, dict(history=history[:done + 1]),
                            f"recorded event {history[done]} is no step of the specification, "
                            f"after {history[max(0, done - 8):done]}")
    check.coverage["traces_validated_against_impl"] += len(histories)
    check.coverage["states"] += result.distinct
    check.coverage["transitions"] += result.states
    kinds = {}
    for e in (e for h in histories for e in h):
        kinds[f"events, {e['e']}"] = kinds.get(f"events, {e['e']}", 0) + 1
    check.add(part, histories=len(histories), **kinds)
