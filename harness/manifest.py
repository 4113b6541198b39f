""" Write MANIFEST.json: a check for each property that has a module in checks/ """
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
TRUST = ("Bounded: TLC explores the specification within the stated constants, the code is "
         "bound to it by replaying a seeded selection of its behaviours. Trusted: the replay "
         "harness, git, TLC.")
LIFE = ("TLA+ (Lifecycle.tla) checked with TLC; behaviours of its state graph replayed on the "
        "real classes with real git repositories")
INFO = {p: (LIFE, "model_checking", TRUST) for p in ("P01", "P02", "P03", "P12", "P15", "P16")}


def load_extra():
    path = VERIF / "harness" / "manifest_info.json"
    if path.exists():
        for prop, (technique, level, note) in json.loads(path.read_text()).items():
            INFO[prop] = (technique, level, f"{note} {TRUST}".strip())


def main():
    load_extra()
    props = [json.loads(line)["id"] for line in (VERIF / "properties.jsonl").open()]
    checks, missing = [], []
    for prop in props:
        if prop in INFO and (VERIF / "harness" / "checks" / f"{prop.lower()}.py").exists():
            technique, level, note = INFO[prop]
            checks.append(dict(
                property=prop, quick_cmd=f"bin/check {prop} quick",
                thorough_cmd=f"bin/check {prop} thorough", technique=technique,
                level=level, level_note=note))
        else:
            missing.append(dict(property=prop, reason="check under construction"))
    (VERIF / "MANIFEST.json").write_text(json.dumps(dict(
        version=1, setup_cmd="true", checks=checks, not_applicable=missing,
        notes="No hooks in /repo: the public interface and the state of the git repositories "
              "expose everything the specifications talk about."), indent=1) + "\n")


main()
