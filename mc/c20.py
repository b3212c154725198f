"""C20: toposort on every small directed graph."""
from __future__ import annotations

import copy
import itertools

from rebulk.toposort import CyclicDependency, toposort, toposort_flatten

from .c05 import Cycle, levels, subsets
from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["graphs on at most 4 (thorough: 5, acyclic candidates by ordering) labelled nodes"]


class Node:
    """A node equal by label only (like rules are equal by class)."""

    def __init__(self, label):
        self.label = label

    def __eq__(self, other):
        return self.label == other.label

    def __hash__(self):
        return hash(self.label)

    def __lt__(self, other):
        return self.label < other.label

    def __repr__(self):
        return f"N{self.label}"


def run(ctx, case):
    keys, deps, kind = case
    if kind == "mixed":  # items that cannot be compared with one another
        return mixed_run(ctx, keys, deps)
    wrap = {"int": lambda x: x, "str": lambda x: "abcde"[x] + "z" * (x * 3 % 4), "node": Node}[kind]
    data = {wrap(k): {wrap(d) for d in deps[i]} for i, k in enumerate(keys)}
    before = copy.deepcopy(data)
    edges = {k: deps[i] for i, k in enumerate(keys)}
    items = sorted(set(keys) | {d for ds in deps for d in ds})
    full = {i: edges.get(i, ()) for i in items}
    ctx.ran()
    try:
        want = [sorted(level) for level in levels(items, full)]
    except Cycle:
        ctx.raises(CyclicDependency, lambda: list(toposort(data)), f"{case}: cyclic")
        ctx.raises(CyclicDependency, lambda: toposort_flatten(data), f"{case}: cyclic")
        ctx.eq(data, before, f"{case}: input")
        return
    plain = lambda x: x.label if kind == "node" else "abcde".index(x[0]) if kind == "str" else x
    got = [sorted(plain(x) for x in level) for level in toposort(data)]
    ctx.eq(got, want, f"{case}: levels")
    ctx.eq([plain(x) for x in toposort_flatten(data)], [i for level in want for i in level], f"{case}: flatten")
    ctx.eq(sorted(plain(x) for x in toposort_flatten(data, sort=False)), items, f"{case}: unsorted flatten")
    ctx.eq(data, before, f"{case}: input modified")
    ctx.eq([len(list(level)) for level in toposort(data)], [len(level) for level in want], f"{case}: second run")
    ctx.state(want)


MIXED = [1, "a", None, (2, "b"), frozenset([1])]


def mixed_run(ctx, keys, deps):
    data = {MIXED[k]: {MIXED[d] for d in deps[i]} for i, k in enumerate(keys)}
    before = copy.deepcopy(data)
    edges = {k: deps[i] for i, k in enumerate(keys)}
    items = sorted(set(keys) | {d for ds in deps for d in ds})
    what = f"{data}"
    ctx.ran()
    try:
        want = levels(items, {i: edges.get(i, ()) for i in items})
    except Cycle:
        ctx.raises(CyclicDependency, lambda: list(toposort(data)), what + ": cyclic")
        ctx.raises(CyclicDependency, lambda: toposort_flatten(data, sort=False), what + ": cyclic")
        ctx.eq(data, before, what + ": input")
        return
    ctx.eq([sorted(MIXED.index(x) for x in level) for level in toposort(data)], [sorted(level) for level in want], what + ": levels")
    ctx.eq(sorted(MIXED.index(x) for x in toposort_flatten(data, sort=False)), items, what + ": unsorted flatten")
    ctx.eq(data, before, what + ": input")


def cases(tier):
    for n in range(4):
        for keys in itertools.permutations(range(n)):
            for sub in range(n + 1):
                for deps in itertools.product(subsets(range(n)), repeat=sub):
                    for kind in ("int", "str", "node", "mixed"):
                        yield keys[:sub], deps, kind
    for deps in itertools.product(subsets(range(4)), repeat=4):
        yield (0, 1, 2, 3), deps, "int"
    if tier == "thorough":
        for deps in itertools.product(subsets(range(4)), repeat=4):
            yield (2, 0, 3, 1), deps, "node"
        # every acyclic-or-not graph on 5 nodes without self edges, in which node 4 has no dependency
        for deps in itertools.product(*[subsets([j for j in range(5) if j != i]) for i in range(4)]):
            yield (0, 1, 2, 3), deps, "str"


def families():
    return [Family("graphs", cases, run, "every mapping from every subset of up to 3 nodes (4: from all) to every dependency subset, self dependencies and mention-only items included"), sizes("C20")]
