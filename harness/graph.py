"""
State graph of a specification as printed by TLC, and walks through it.

The specification prints lines
   S <id> <json>           for each state
   T <id> <id> <json>      for each transition
"""
import json
import random
from collections import deque


class Graph:
    def __init__(self):
        self.states = {}
        self.edges = {}         # source -> [(target, label json text)]
        self.initial = []
        self.n_edges = 0
        self._seen = set()

    def feed(self, line):
        if line.startswith("S "):
            ident, data = line[2:].split(" {", 1)
            if ident not in self.states:
                data = ("{" + data).replace('"c":[]', '"c":{}')
                self.states[ident] = data
                if '"init":true' in data:
                    self.initial.append(ident)
        elif line.startswith("T "):
            ids, data = line[2:].split(" {", 1)
            a, b = ids.split(">> ")
            a += ">>"
            key = (a, b, data)
            if key not in self._seen:
                self._seen.add(key)
                self.edges.setdefault(a, []).append((b, "{" + data))
                self.n_edges += 1

    def done(self):
        self._seen = None
        # transitions to states beyond the bound have no target
        for source, out in self.edges.items():
            self.edges[source] = [e for e in out if e[0] in self.states]
        self.n_edges = sum(map(len, self.edges.values()))
        return self

    def state(self, ident):
        return json.loads(self.states[ident])

    def walks(self, rng, length, count=None, weight=None, max_steps=None, deep=True):
        """
        Yield walks (initial state, [(label, target), ...]) that cover all
        transitions, as far as count and max_steps allow.
        """
        uncovered = {
            s: {i: op_of(e[1]) for i, e in enumerate(out)}
            for s, out in self.edges.items() if out}
        total = steps_done = produced = 0
        initial = sorted(self.initial)
        while any(True for _ in uncovered):
            if count is not None and produced >= count:
                return
            if max_steps is not None and steps_done >= max_steps:
                return
            current = start = rng.choice(initial)
            steps, new = [], 0
            while len(steps) < length:
                out = self.edges.get(current) or []
                if not out:
                    break
                open_here = uncovered.get(current)
                if open_here:
                    # first choose an operation, then a transition
                    ops = sorted(set(open_here.values()))
                    if deep and len(steps) < length - 1 and rng.random() < 0.9:
                        # rather go on than end here
                        onward = {i: o for i, o in open_here.items()
                                  if self.edges.get(self.edges[current][i][0])}
                        open_here = onward or open_here
                        ops = sorted(set(open_here.values()))
                    if weight:
                        op = rng.choices(ops, [weight.get(o, 1) for o in ops])[0]
                    else:
                        op = rng.choice(ops)
                    index = rng.choice([i for i, o in open_here.items() if o == op])
                    path = [(current, index)]
                    new += 1
                else:
                    path = self._nearest(current, uncovered, length - len(steps))
                    if path is None:
                        break
                for source, index in path:
                    target, label = self.edges[source][index]
                    steps.append((label, target))
                    left = uncovered.get(source)
                    if left and index in left:
                        del left[index]
                        if not left:
                            del uncovered[source]
                    current = target
            if not steps:
                return
            if not new:
                # nothing can be covered any more within the length
                return
            produced += 1
            steps_done += len(steps)
            yield start, steps

    def _nearest(self, start, uncovered, limit):
        queue, back = deque([(start, 0)]), {start: None}
        while queue:
            node, depth = queue.popleft()
            if node in uncovered and node != start:
                path = []
                while back[node] is not None:
                    source, index = back[node]
                    path.append((source, index))
                    node = source
                return path[::-1]
            if depth + 1 >= limit or depth > 12:
                continue
            for index, (target, _) in enumerate(self.edges.get(node) or []):
                if target not in back:
                    back[target] = (node, index)
                    queue.append((target, depth + 1))
        return None


def op_of(label):
    start = label.find('"op":"') + 6
    return label[start:label.find('"', start)]
