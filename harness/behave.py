"""
Generic replay: generate behaviours of a specification, and perform them with an
adapter for the code under test.

Specifications provide EmitState, EmitEdge and GenView, see Lifecycle.tla; the
label of a transition holds
   op    the operation, further fields are its arguments
   ok    whether it succeeds
   res   its result, if it is compared
"""
import json
import random
import shutil

import core
import objects
from core import Violation
from graph import Graph


class Adapter:
    """ Base class; a new object is created for each behaviour """
    def __init__(self, env, options, rng):
        self.env, self.options, self.rng = env, options, rng
        self.base = env.mkdir("walk")
        objects.set_style(rng)

    def start(self, state):
        pass

    def perform(self, label, before, after):
        """ perform an operation: raise what the code raises, or return a result """
        return getattr(self, "do_" + label["op"])(label)

    def check_result(self, label, result, before, after):
        if "res" in label and normal(result) != normal(label["res"]):
            raise Violation(f"result {result!r}, expected {label['res']!r}")

    def observe(self, state, label):
        pass

    def finish(self, state):
        pass

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def normal(value):
    """ comparable form of a result; sets are lists in JSON """
    if isinstance(value, (list, tuple, set, frozenset)):
        return sorted((normal(v) for v in value), key=repr)
    if isinstance(value, dict):
        return {str(k): normal(v) for k, v in value.items()}
    return value


def graph_of(check, part, module, constants, simulate=None, depth=30, invariants=(),
             properties=(), constraints=("Bound",), view="GenView", init=None):
    graph = Graph()
    extra = []
    if simulate:
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth),
                 "-seed", str(check.seed)]
    result = core.run_tlc(
        check.env, module, constants, constraints=[*constraints, "EmitState"],
        invariants=invariants, properties=() if simulate else properties,
        action_constraints=["EmitEdge"], view=view, workers=1, on_line=graph.feed, extra=extra)
    if result.error or result.returncode or not (result.ok or simulate):
        check.model_error(part, result)
    graph.done()
    check.coverage["states"] += len(graph.states) if simulate else result.distinct
    check.coverage["transitions"] += graph.n_edges if simulate else result.states
    check.add(part, graph_states=len(graph.states), graph_transitions=graph.n_edges,
              tlc_wall_s=round(result.wall, 1))
    return graph


def replay(check, specs, deadline=None, task_timeout=120):
    """
    specs: list of dicts with keys part, module, constants, adapter, and optionally
    options, simulate, depth, invariants, properties, length, steps, weight, repeat
    """
    from concurrent.futures import ThreadPoolExecutor

    def generate(spec):
        return graph_of(check, spec["part"], spec["module"], spec["constants"], **{
            k: spec[k] for k in (
                "simulate", "depth", "invariants", "properties", "constraints") if k in spec})

    with ThreadPoolExecutor(max(2, core.NPROC - 1)) as pool:
        graphs = list(pool.map(generate, specs))
    items = []
    for number, (spec, graph) in enumerate(zip(specs, graphs)):
        walks = list(graph.walks(
            random.Random(f"{check.seed}-{spec['part']}"), spec.get("length", 30),
            max_steps=spec.get("steps"), weight=spec.get("weight")))
        check.add(spec["part"], walks_planned=len(walks),
                  complete=sum(len(w[1]) for w in walks) >= graph.n_edges
                  and spec.get("steps") is None)
        if walks:
            longest = max(walks[:20], key=lambda w: len(w[1]))
            check.sample({"part": spec["part"],
                          "behaviour": [json.loads(x[0]) for x in longest[1][:8]]})
        items.extend((number, f"{repeat}-{index}" if repeat else index, walk)
                     for repeat in range(spec.get("repeat", 1))
                     for index, walk in enumerate(walks))
    random.Random(check.seed).shuffle(items)

    def work(item):
        number, index, (start, steps) = item
        spec, graph = specs[number], graphs[number]
        adapter = spec["adapter"](
            check.env, dict(spec.get("options", {}), index=str(index)), random.Random(f"{check.seed}-{index}"))
        log = []
        try:
            state = graph.state(start)
            adapter.start(state)
            for step, (text, target) in enumerate(steps):
                label = json.loads(text)
                before, state = state, graph.state(target)
                log.append(text)
                where = f"{spec['part']}, step {step + 1} {text}"
                try:
                    result, error = adapter.perform(label, before, state), None
                except (Violation, core.MachineryError):
                    raise
                except Exception as e:
                    result, error = None, e
                if (error is None) != label["ok"]:
                    raise Violation(
                        f"failed with {error!r}, expected success"
                        if error is not None else f"returned {result!r}, expected an error")
                if error is None:
                    adapter.check_result(label, result, before, state)
                adapter.observe(state, label)
            where = f"{spec['part']}, at the end"
            adapter.finish(state)
        except Violation as e:
            if log:
                e.message = f"{where}: {e.message}"
            e.data.update(behaviour=log, start=graph.state(start))
            raise
        finally:
            adapter.close()
        return number, len(steps)

    results = check.run("replay", work, items, deadline=deadline, task_timeout=task_timeout)
    for number, count in results:
        check.add(specs[number]["part"], walks=1, steps=count)
    return results
