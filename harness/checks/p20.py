import json

import marking


def constants(name, most):
    if name == "stored":
        types = marking.STORED
        classes = {s: marking.REFERENCES.get(s, set()) for s in types}
        needs = marking.NEEDS
    else:
        _, types = marking.document_constants(name)
        classes = {s: set() for s in types}
        needs = {"all": set(types)}
    return dict(
        Sites=set(types), TypeOf=types, ClassesOf=classes, ClassOf={s: min(c, default="-") for s, c in classes.items()}, Needs=needs, Types=marking.TYPES,
        Versions=marking.VERSIONS, Classes=marking.CLASSES, MaxWrong=most)


def run(check):
    t = check.thorough
    tasks = []
    for name in [*marking.DOCUMENTS, "stored"]:
        lines = []
        check.model(
            name, "Marking", constants(name, 3 if t and name not in ("metadata", "stored") else 2),
            constraints=["EmitState"], invariants=["Refused", "Accepted"],
            on_line=lines.append)
        cases = [json.loads(line[2:].replace('"m":[]', '"m":{}')) for line in sorted(set(lines))]
        check.rng.shuffle(cases)
        # all with one altered mark, some of the others
        few = [c for c in cases if len(c["m"]) < 2]
        rest = [c for c in cases if len(c["m"]) >= 2]
        if not t:
            rest = rest[:4000]
        check.sample(dict(document=name, case=few[-1]))
        check.add(name, documents=len(few) + len(rest), altered_once=len(few))
        picked = few * (20 if t else 6) + rest
        check.rng.shuffle(picked)
        size = 60 if name == "stored" else 400
        tasks += [(name, picked[n:n + size], f"{check.seed}-{n}")
                  for n in range(0, len(picked), size)]

    def work(task):
        if task == "classes":
            return marking.class_matrix(check.env.repo())
        name, cases, seed = task
        return marking.replay(name, cases, seed, check.env.repo())

    results = check.run("replay", work, ["classes"] + tasks, task_timeout=600)
    check.coverage["traces_validated_against_impl"] = sum(results)
    check.add("replay", tasks=len(tasks), loaded=sum(results))
