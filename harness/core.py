"""
Common parts of the checks: scratch environment, running TLC, running tasks in
parallel in forked processes, evidence and verdicts.
"""
import itertools
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
NPROC = max(2, min(8, os.cpu_count() or 2))


class Violation(Exception):
    """ The code under test does not do what the specification says """
    def __init__(self, message, **data):
        super().__init__(message)
        self.message = message
        self.data = data


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------
# Scratch environment
# --------------------------------------------------------------------------
def _scratch_base():
    shm = Path("/dev/shm")
    try:
        if shm.is_dir() and os.access(shm, os.W_OK):
            stat = os.statvfs(shm)
            if stat.f_bavail * stat.f_frsize > 2 * 2 ** 30:
                return str(shm)
    except OSError:
        pass
    return None


class Env:
    """
    Scratch directory, and an environment in which git and the code under test
    read and write nothing outside of it (but read the sources).
    """
    def __init__(self, name):
        self.pid = os.getpid()
        self.dir = Path(tempfile.mkdtemp(prefix=f"vf-{name}-", dir=_scratch_base()))
        for sub in ("home", "cache", "tmp", "bin", "templ"):
            (self.dir / sub).mkdir()
        (self.dir / "gitconfig").write_text(
            "[user]\n\tname = V\n\temail = v@example.com\n"
            "[init]\n\tdefaultBranch = main\n"
            "[safe]\n\tdirectory = *\n"
            "[gc]\n\tauto = 0\n"
            "[maintenance]\n\tauto = false\n"
            "[uploadpack]\n\tallowAnySHA1InWant = true\n"
            "[core]\n\tfsync = none\n"
            "[protocol \"file\"]\n\tallow = always\n")
        for key in list(os.environ):
            if key.startswith(("GIT_", "VS_")):
                del os.environ[key]
        os.environ.update(
            HOME=str(self.dir / "home"),
            XDG_CACHE_HOME=str(self.dir / "cache"),
            TMPDIR=str(self.dir / "tmp"),
            GIT_CONFIG_GLOBAL=str(self.dir / "gitconfig"),
            GIT_CONFIG_NOSYSTEM="1",
            GIT_TERMINAL_PROMPT="0",
            LANG="C.UTF-8",
            LC_ALL="C.UTF-8",
            PYTHONDONTWRITEBYTECODE="1")
        tempfile.tempdir = str(self.dir / "tmp")
        sys.dont_write_bytecode = True
        self.git = shutil.which("git")
        self.counter = itertools.count()

    def use_shim(self):
        """ Put the stand-in for git on PATH """
        exe = self.dir / "bin" / "git"
        if not exe.exists():
            subprocess.run(
                ["gcc", "-O1", "-o", str(exe), str(VERIF / "harness" / "gitshim.c")],
                check=True)
            os.environ["VS_GIT"] = self.git
            os.environ["PATH"] = f"{self.dir / 'bin'}:{os.environ['PATH']}"

    def import_code(self):
        if str(REPO) not in sys.path:
            sys.path.insert(0, str(REPO))
        import logging
        logging.disable(logging.CRITICAL)
        import dataladmetadatamodel
        where = Path(dataladmetadatamodel.__file__).resolve()
        if REPO.resolve() not in where.parents:
            raise MachineryError(f"imported the wrong code: {where}")

    def mkdir(self, name="d"):
        while True:
            # the id of a process may have been used before
            path = self.dir / f"{name}-{os.getpid()}-{next(self.counter)}"
            try:
                path.mkdir()
                return path
            except FileExistsError:
                pass

    def repo(self, path=None):
        path = Path(path) if path else self.mkdir("r") / "repo"
        init_repo(path)
        return str(path)

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)


def init_repo(path):
    """ Same as git init, without the costs of a process """
    git_dir = Path(path) / ".git"
    for sub in ("objects/info", "objects/pack", "refs/heads", "refs/tags"):
        (git_dir / sub).mkdir(parents=True)
    (git_dir / "HEAD").write_text("ref: refs/heads/main\n")
    (git_dir / "config").write_text(
        "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n"
        "\tbare = false\n\tlogallrefupdates = true\n")


def git(repo, *args, check=True, stdin=None, text=True):
    env = {k: v for k, v in os.environ.items() if k != "VS_DIR"}
    result = subprocess.run(
        ["git", "--git-dir", f"{repo}/.git", *args], input=stdin, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text)
    if check and result.returncode:
        raise MachineryError(f"git {args}: {result.stderr}")
    return result.stdout


def refs(repo):
    """ All references of a repository """
    out = git(repo, "for-each-ref", "--format=%(refname) %(objectname)")
    return dict(line.split(" ") for line in out.splitlines())


def pack(repo, objects=True):
    """ let git store references, and objects, in another way """
    if (Path(repo) / ".git" / "HEAD").exists():
        git(repo, "pack-refs", "--all", "--prune")
        if objects:
            git(repo, "repack", "-a", "-d", "-k", "-q")


def loose_objects(repo):
    base = Path(repo) / ".git" / "objects"
    return {
        d.name + f.name
        for d in base.iterdir() if len(d.name) == 2
        for f in d.iterdir() if len(f.name) == 38}


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tla(value):
    """ Python value to TLA+ expression """
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return '"' + value.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in value)) + "}"
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    if isinstance(value, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in value.items()) + "]"
    raise TypeError(value)


class TlcResult:
    def __init__(self):
        self.ok = False
        self.states = self.distinct = self.depth = 0
        self.lines = []
        self.error = []
        self.complete = False
        self.wall = 0.0


def run_tlc(env, module, constants, invariants=(), properties=(), constraints=(),
            action_constraints=(), view=None, spec="Spec", workers=None,
            extra=(), timeout=840, extra_files=None, postcondition=None,
            on_line=None, heap="6g", deadlock=False, defs=None):
    """
    Run TLC with module. Lines printed by the specification are collected in
    `lines` (or given to on_line).
    """
    d = env.mkdir("tlc")
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, d)
    for name, content in (extra_files or {}).items():
        (d / name).write_text(content)
    cfg = [f"SPECIFICATION {spec}"]
    if constants:
        cfg.append("CONSTANTS")
    root = f"MC_{module}"
    lines = [f"---- MODULE {root} ----", f"EXTENDS {module}"]
    for key, value in (constants or {}).items():
        lines.append(f"const_{key} == {value if isinstance(value, Raw) else tla(value)}")
        cfg.append(f"  {key} <- const_{key}")
    lines.extend(defs or [])
    lines.append("====")
    (d / f"{root}.tla").write_text("\n".join(lines) + "\n")
    for keyword, names in (
            ("INVARIANT", invariants), ("PROPERTY", properties),
            ("CONSTRAINT", constraints), ("ACTION_CONSTRAINT", action_constraints)):
        cfg.extend(f"{keyword} {name}" for name in names)
    if view:
        cfg.append(f"VIEW {view}")
    if postcondition:
        cfg.append(f"POSTCONDITION {postcondition}")
    cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    (d / f"{root}.cfg").write_text("\n".join(cfg) + "\n")

    jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           f"-Djava.io.tmpdir={d}", "-cp", jars, "tlc2.TLC",
           "-workers", str(workers or NPROC), "-metadir", str(d / "meta"),
           "-noGenerateSpecTE", *extra, "-config", f"{root}.cfg", f"{root}.tla"]
    start = time.time()
    result = TlcResult()
    process = subprocess.Popen(
        cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        env={k: v for k, v in os.environ.items() if k != "VS_DIR"})
    timer = None
    try:
        import threading
        timer = threading.Timer(timeout, process.kill)
        timer.start()
        in_error = False
        for line in process.stdout:
            line = line.rstrip("\n")
            if line.startswith('"') and line.endswith('"') and len(line) > 1:
                text = json.loads(line) if "\\" in line else line[1:-1]
                if on_line:
                    on_line(text)
                else:
                    result.lines.append(text)
                continue
            match = re.match(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
            if match:
                result.states, result.distinct = int(match[1]), int(match[2])
                result.complete = match[3] == "0"
            match = re.match(r"^The depth of the complete state graph search is (\d+)", line)
            if match:
                result.depth = int(match[1])
            if line.startswith("Model checking completed. No error has been found"):
                result.ok = True
            if line.startswith(("Error:", "*** Errors", "***Parse")) or in_error:
                in_error = True
                if len(result.error) < 400:
                    result.error.append(line)
        process.wait()
    finally:
        if timer:
            timer.cancel()
        process.kill()
        process.wait()
    result.wall = time.time() - start
    result.returncode = process.returncode
    shutil.rmtree(d, ignore_errors=True)
    return result


class Raw(str):
    """ A TLA+ expression """


# --------------------------------------------------------------------------
# Tasks in forked processes
# --------------------------------------------------------------------------
def in_child(function, *args, timeout=60):
    """
    Run function in a forked child process, return its (JSON-able) result.
    Raise Violation, if it does.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                result = {"ok": function(*args)}
            except Violation as e:
                result = {"violation": e.message, "data": e.data}
            except BaseException as e:
                result = {"error": traceback.format_exc(), "repr": repr(e),
                          "unusable": isinstance(e, UNUSABLE) or getattr(e, "unusable", False)}
            data = json.dumps(result, default=str).encode()
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = time.time() + timeout
    import select
    timed_out = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0, deadline - time.time()))
        if not ready:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return Outcome(error=f"timeout after {timeout} s", timeout=True, unusable=True)
    if not data:
        return Outcome(error=f"child ended with status {status}", status=status)
    result = json.loads(data)
    if "violation" in result:
        raise Violation(result["violation"], **result["data"])
    if "error" in result:
        return Outcome(error=result["error"], repr_=result["repr"], unusable=result["unusable"])
    return Outcome(value=result["ok"])


class Outcome:
    def __init__(self, value=None, error=None, status=0, timeout=False, repr_=None,
                 unusable=False):
        self.value, self.error, self.status = value, error, status
        self.timeout, self.repr, self.unusable = timeout, repr_, unusable

    def get(self):
        if self.error is not None:
            raise ChildError(self.error, self.unusable)
        return self.value


class ChildError(Exception):
    def __init__(self, error, unusable=False):
        super().__init__(error)
        self.unusable = unusable


# what the adapters run into, when a result of the code under test is not even of
# the kind they expect (an iterator, a number, ...), and so cannot be compared
UNUSABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError)


def blame(text):
    """ Does the innermost part of a traceback belong to the code under test? """
    files = re.findall(r'File "([^"]+)", line', text)
    return any(str(REPO) in f for f in files)


def run_tasks(function, tasks, deadline=None, task_timeout=120, nproc=NPROC,
              stop_on_violation=True):
    """
    Run function(task) for all tasks, each in a process of its own. Return
    (results, violations), where results are in order of completion, and
    skipped tasks (because of the deadline) are missing.
    """
    import selectors
    results, violations = [], []
    tasks = list(tasks)
    queue = list(range(len(tasks)))[::-1]
    selector = selectors.DefaultSelector()
    running = {}

    def start(index):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    result = {"ok": function(tasks[index])}
                except Violation as e:
                    result = {"violation": e.message, "data": e.data}
                except BaseException as e:
                    result = {"error": traceback.format_exc() + getattr(e, "trace", ""),
                              "unusable": isinstance(e, UNUSABLE)
                              or getattr(e, "unusable", False)}
                data = memoryview(json.dumps(result, default=str).encode())
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        running[r] = [pid, index, b"", time.time() + task_timeout]
        selector.register(r, selectors.EVENT_READ)

    def kill(pid):
        for f, p in ((os.killpg, pid), (os.kill, pid)):
            try:
                f(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass

    def finish(r, timed_out=False):
        pid, index, data, _ = running.pop(r)
        selector.unregister(r)
        os.close(r)
        if timed_out:
            kill(pid)
        _, status = os.waitpid(pid, 0)
        kill(pid)
        if timed_out:
            violations.append((
                tasks[index],
                f"no answer within {task_timeout} s: the code under test does not end", {}))
        elif not data:
            raise MachineryError(f"task {index} ended with status {status}")
        else:
            result = json.loads(data)
            if "ok" in result:
                results.append(result["ok"])
            elif "violation" in result:
                violations.append((tasks[index], result["violation"], result["data"]))
            elif blame(result["error"]):
                violations.append((
                    tasks[index], "unexpected exception in the code under test",
                    {"traceback": result["error"]}))
            elif result["unusable"]:
                violations.append((
                    tasks[index], "the code under test returned something of another kind",
                    {"traceback": result["error"]}))
            else:
                raise MachineryError(result["error"])

    try:
        while queue or running:
            now = time.time()
            stop = (violations and stop_on_violation) or (deadline and now > deadline)
            if stop:
                queue.clear()
            while queue and len(running) < nproc:
                start(queue.pop())
            for key, _ in selector.select(0.5):
                r = key.fd
                chunk = os.read(r, 1 << 16)
                if chunk:
                    running[r][2] += chunk
                else:
                    finish(r)
            now = time.time()
            for r in [r for r, v in running.items() if now > v[3]]:
                finish(r, timed_out=True)
    finally:
        for pid, *_ in running.values():
            kill(pid)
    return results, violations


# --------------------------------------------------------------------------
# A check
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.env = Env(prop)
        self.rng = random.Random(f"{prop}-{seed}")
        self.violations = []
        self.known = self.load_known()
        self.known_seen = {}
        self.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.parts = {}
        self.assumptions = []

    def load_known(self):
        known = []
        path = VERIF / "known_findings.txt"
        if path.exists():
            for line in path.read_text().splitlines():
                match = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line)
                if match and match[1] == self.prop:
                    known.append((match[2], match[3]))
        return known

    def left(self, budget):
        return budget - (time.time() - self.start)

    def add(self, part, **counts):
        """ measured counts of a part of the check """
        entry = self.parts.setdefault(part, {})
        for key, value in counts.items():
            if isinstance(value, (int, float)) and not isinstance(value, bool):
                entry[key] = entry.get(key, 0) + value
            else:
                entry[key] = value

    def sample(self, item):
        if len(self.samples) < 6:
            self.samples.append(item)

    def violation(self, part, task, message, data=None):
        key = (data or {}).get("key")
        for known_key, what in self.known:
            if key == known_key:
                self.known_seen[known_key] = what
                return
        self.violations.append(dict(part=part, task=task, message=message, data=data or {}))

    def model_error(self, part, result):
        raise MachineryError(
            f"{part}: the specification does not have the property:\n"
            + "\n".join(result.error[:80]))

    def model(self, part, module, constants, expect_ok=True, **kwargs):
        """ Model check a specification, it must not have an error """
        result = run_tlc(self.env, module, constants, **kwargs)
        if expect_ok and not result.ok:
            self.model_error(part, result)
        self.coverage["states"] += result.distinct
        self.coverage["transitions"] += result.states
        self.add(part, tlc_runs=1, tlc_distinct_states=result.distinct,
                 tlc_generated_states=result.states, tlc_wall_s=round(result.wall, 1))
        if result.depth:
            self.parts[part]["tlc_depth"] = max(
                result.depth, self.parts[part].get("tlc_depth", 0))
        return result

    def run(self, part, function, tasks, **kwargs):
        """ Bind the specification to the code: run tasks """
        results, violations = run_tasks(function, tasks, **kwargs)
        self.coverage["traces_validated_against_impl"] += len(results)
        for task, message, data in violations:
            self.violation(part, task, message, data)
        return results

    def finish(self):
        evidence = VERIF / "evidence"
        evidence.mkdir(exist_ok=True)
        coverage = dict(self.coverage)
        coverage["samples"] = self.samples or ["-"]
        coverage["parts"] = self.parts
        doc = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
            coverage=coverage, assumptions=self.assumptions,
            wall_s=round(time.time() - self.start, 2),
            violations=len(self.violations))
        (evidence / f"{self.prop}.json").write_text(json.dumps(doc, indent=1, default=str))
        for key, what in self.known_seen.items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            replay_dir = evidence / "replay"
            replay_dir.mkdir(exist_ok=True)
            for n, violation in enumerate(self.violations[:5]):
                path = replay_dir / f"{self.prop}-{n}.json"
                path.write_text(json.dumps(violation, indent=1, default=str))
                print(f"  {violation['part']}: {violation['message']}"[:1500])
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop} {self.tier}: held; {json.dumps(self.coverage)} "
              f"{doc['wall_s']} s")
        return 0
