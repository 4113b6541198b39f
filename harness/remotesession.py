""" A process that reads repositories on request, used by remote.py """
import json
import os
import sys
from pathlib import Path
from uuid import UUID

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

import core  # noqa: E402

if str(core.REPO) not in sys.path:
    sys.path.insert(0, str(core.REPO))

import logging  # noqa: E402
logging.disable(logging.CRITICAL)

import objects as ob  # noqa: E402
from dataladmetadatamodel.common import get_top_level_metadata_objects  # noqa: E402
from dataladmetadatamodel.datasettree import DatasetTree  # noqa: E402
from dataladmetadatamodel.filetree import FileTree  # noqa: E402
from dataladmetadatamodel.metadata import Metadata  # noqa: E402
from dataladmetadatamodel.metadatapath import MetadataPath  # noqa: E402
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord  # noqa: E402
from dataladmetadatamodel.uuidset import UUIDSet  # noqa: E402
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList  # noqa: E402

UUIDS = {"u": UUID(int=5), "w": UUID(int=6 << 100)}
SUB, FILE = MetadataPath("s/t"), MetadataPath("d/f")


class Session:
    def __init__(self):
        self.top = {"tvl": None, "us": None}

    def record(self, x):
        metadata, tree, in_file = Metadata(), FileTree(), Metadata()
        ob.run_metadata(metadata, x)
        ob.run_metadata(in_file, 100 + x)
        tree.add_metadata(FILE, in_file)
        return MetadataRootRecord(UUID(int=9), f"d{x}", metadata, tree)

    def publish(self, repo, w, k, x):
        """ with direct access to the repository """
        uuid, version = k
        top = dict(zip(("tvl", "us"), get_top_level_metadata_objects("git", repo)))[w]
        if w == "tvl":
            top = top if top is not None else TreeVersionList()
            tree = DatasetTree()
            tree.add_dataset(SUB, self.record(x))
            top.set_dataset_tree(version, f"{x}.5", MetadataPath(""), tree)
        else:
            top = top if top is not None else UUIDSet()
            if UUIDS[uuid] in list(top.uuids()):
                target = top.get_version_list(UUIDS[uuid])
            else:
                target = VersionList()
                top.set_version_list(UUIDS[uuid], target)
            target.set_versioned_element(version, f"{x}.5", MetadataPath(""), self.record(x))
        top.write_out(repo)

    def load(self, realm):
        tvl, us = get_top_level_metadata_objects("git", realm)
        self.top = {"tvl": tvl, "us": us}
        return [w for w, o in self.top.items() if o is not None]

    def disturb(self, only, mode):
        os.environ.update(VS_ONLY=only, VS_MODE=mode, VS_AT="0", VS_TIMES="-1")

    def undisturbed(self):
        os.environ.pop("VS_MODE", None)

    def element(self, top, w, k):
        uuid, version = k
        target = top if w == "tvl" else top.get_version_list(UUIDS[uuid])
        stamp, _, element = target.get_versioned_element(version, MetadataPath(""))
        if w == "tvl":
            element = element.get_metadata_root_record(SUB)
        return stamp, element

    def part(self, top, w, k, part):
        stamp, record = self.element(top, w, k)
        if part == "E":
            if stamp != record.dataset_version.replace("d", "") + ".5":
                raise core.Violation(f"stamp {stamp} of {record.dataset_version}")
            return int(record.dataset_version[1:])
        if part == "M":
            return record.get_dataset_level_metadata()
        return record.get_file_tree().get_metadata(FILE)

    def value(self, part, metadata):
        if part == "E":
            return metadata
        return ob.probe(metadata)["v"] - (100 if part == "F" else 0)

    def access(self, w, k, part):
        return self.value(part, self.part(self.top[w], w, k, part))

    def change(self, w, k, part, x):
        ob.run_metadata(self.part(self.top[w], w, k, part), x + (100 if part == "F" else 0))

    def write(self, w):
        return repr(self.top[w].write_out())

    def unload(self, w):
        self.top[w].purge()

    def copy(self, w, repo):
        copied = self.top[w].deepcopy("git", repo)
        del copied
        tvl, us = get_top_level_metadata_objects("git", repo)
        top = tvl if w == "tvl" else us
        keys = []
        if w == "tvl":
            keys = [["", v] for v in top.versions()]
        else:
            names = {v: k for k, v in UUIDS.items()}
            for uuid in list(top.uuids()):
                keys += [[names[uuid], v] for v in top.get_version_list(uuid).versions()]
        return [[k, self.value("M", self.part(top, w, k, "M")),
                 self.value("F", self.part(top, w, k, "F"))] for k in keys]


def main():
    session = Session()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        name, args = json.loads(line)
        try:
            answer = {"ok": getattr(session, name)(*args)}
        except core.Violation as e:
            answer = {"violation": e.message}
        except Exception as e:
            answer = {"error": repr(e)[:2000]}
        print(json.dumps(answer, default=str), file=out, flush=True)


if __name__ == "__main__":
    main()
