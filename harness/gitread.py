""" Read loose git objects and references without git """
import hashlib
import os
import zlib
from pathlib import Path


class Missing(Exception):
    pass


def git_dir(repo):
    return Path(repo) / ".git"


def read_ref(repo, name):
    path = git_dir(repo) / name
    try:
        return path.read_text().strip()
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
        pass
    try:
        for line in (git_dir(repo) / "packed-refs").read_text().splitlines():
            if line.endswith(" " + name):
                return line.split(" ")[0]
    except FileNotFoundError:
        pass
    return None


def object_path(repo, ident):
    return git_dir(repo) / "objects" / ident[:2] / ident[2:]


def read_object(repo, ident, extra=()):
    """ type and content of a loose object, look into directories extra first """
    for path in (*(Path(e) / ident for e in extra), object_path(repo, ident)):
        try:
            data = path.read_bytes()
        except FileNotFoundError:
            continue
        head, _, content = zlib.decompress(data).partition(b"\0")
        return head.split()[0].decode(), content
    raise Missing(ident)


def write_object(repo, kind, content):
    data = f"{kind} {len(content)}".encode() + b"\0" + content
    ident = hashlib.sha1(data).hexdigest()
    path = object_path(repo, ident)
    if not path.exists():
        path.parent.mkdir(exist_ok=True)
        temp = path.parent / f"tmp{os.getpid()}"
        temp.write_bytes(zlib.compress(data, 1))
        temp.rename(path)
    return ident


def parse_tree(content):
    """ list of (mode, name, id) """
    result, position = [], 0
    while position < len(content):
        space = content.index(b" ", position)
        end = content.index(b"\0", space)
        result.append((
            content[position:space].decode(), content[space + 1:end],
            content[end + 1:end + 21].hex()))
        position = end + 21
    return result


def write_tree(repo, entries):
    """ entries: list of (mode, name, id) """
    def key(entry):
        return entry[1] + (b"/" if entry[0] == "40000" else b"")
    return write_object(repo, "tree", b"".join(
        mode.encode() + b" " + name + b"\0" + bytes.fromhex(ident)
        for mode, name, ident in sorted(entries, key=key)))


def read_store(repo, ref, extra=()):
    """
    References in an object reference store: a tree in which the names of the
    entries on the way to a reference form its id. None if there is no store.
    """
    root = read_ref(repo, ref)
    if root is None:
        return None
    result = set()

    def walk(ident, prefix):
        kind, content = read_object(repo, ident, extra)
        if kind != "tree":
            raise Missing(f"{ident} is a {kind}")
        for mode, name, child in parse_tree(content):
            name = prefix + name.decode("latin1")
            if len(name) < 40 and mode == "40000":
                walk(child, name)
            else:
                result.add((mode, child) if name == child else (mode, f"{child} as {name}"))
    walk(root, "")
    return result
