"""C08: two threads using one Rebulk - all interleavings of the real code up to a number of preemptions, under a controlled scheduler."""
from __future__ import annotations

import copy

from . import cold
from .configs import CONTEXTS, MENU, STRINGS, fresh_outcomes, outcome_of, plain, result_view
from .core import Family
from .sched import FOREVER, Sched, reachable

ASSUMPTIONS = [
    "every schedule starts with the modules of the package as they are after import (nothing cached), and a Rebulk that was not used yet",
    "switches happen between source lines (one family: bytecodes; two preemptions: entries into methods of configured objects) of the rebulk package; code of the standard library runs atomically",
    "two threads, one call each; a schedule in which a thread has to wait for a lock is completed without control",
]

# (string index, context index) of each thread
PAIRS = {"tiny": ((-2, 0), (-1, 1)), "short": ((3, 0), (0, 1)), "same": ((0, 0), (0, 0)), "other": ((0, 2), (1, 0))}
TINY = {"strings": ["ab", "bc"], "regex": ["bc", "a-c"], "functional": ["bc", "cbb"], "chain": ["ab", "cd"], "rules": ["bc", "ab"], "markers": ["ab", "-c-"], "nested": ["bc", "ab"], "solvers": ["abc", "cab"], "contexts": ["ab", "ccab"]}
STRINGS = {name: STRINGS[name] + TINY[name] for name in STRINGS}


def calls(name, pair, bulk):
    def one(s, c):
        context = copy.deepcopy(CONTEXTS[c])
        return lambda: bulk.matches(STRINGS[name][s], context)

    return [one(s, c) for s, c in PAIRS[pair]]


def outcome(res):
    return ("ok", result_view(res[1])) if res[0] == "ok" else res


_alone, _outcomes = {}, {}


def alone(name, pair, granularity):
    """Outcome of each call alone (on a fresh Rebulk, in a process of its own), and its number of steps."""
    key = (name, pair, granularity)
    if key not in _alone:
        out = []
        for i in range(2):
            for _ in range(2):  # the interpreter counts bytecodes from the second run on
                cold.restore()
                bulk = MENU[name](plain)[0]
                sched = Sched([calls(name, pair, bulk)[i]], [(0, FOREVER)], granularity, reachable(bulk))
                sched.run()
            s, c = PAIRS[pair][i]
            out.append((("ok", outcome_of(_outcomes, name, s % len(STRINGS[name]), c)), sched.steps[0]))
        _alone[key] = out
    return _alone[key]


def run(ctx, case):
    name, pair, granularity, segments = case
    want = [r for r, _ in alone(name, pair, granularity)]
    cold.restore()
    bulk, owned = MENU[name](plain)
    before = copy.deepcopy(owned)
    sched = Sched(calls(name, pair, bulk), segments, granularity, reachable(bulk) if granularity == "shared" else ())
    got = [outcome(r) for r in sched.run()]
    ctx.ran()
    what = lambda i: f"{name}, schedule {segments} at {granularity} granularity: thread {i} calling matches{STRINGS[name][PAIRS[pair][i][0]], CONTEXTS[PAIRS[pair][i][1]]}"
    for i in range(2):
        ctx.eq(got[i], want[i], lambda: what(i))
    ctx.eq(owned, before, "objects given at configuration")
    # the next call is not affected either
    for i, call in enumerate(calls(name, pair, bulk) if len(segments) == 2 else ()):
        ctx.eq(outcome(("ok", call())), want[i], lambda: what(i) + ", afterwards")
    ctx.state((name, pair, segments[0][0], segments[0][1]))


def one_preemption(name, pair, granularity):
    steps = [n for _, n in alone(name, pair, granularity)]
    for first in (0, 1):
        if pair == "same" and first:
            continue
        for i in range(1, steps[first] + 1):
            yield name, pair, granularity, ((first, i), (1 - first, FOREVER))


def two_preemptions(name, pair, granularity, both=True):
    steps = [n for _, n in alone(name, pair, granularity)]
    for first in (0, 1):
        if first and (pair == "same" or not both):
            continue
        for i in range(1, steps[first] + 1):
            for j in range(1, steps[1 - first] + 1):
                yield name, pair, granularity, ((first, i), (1 - first, j), (first, FOREVER))


def cases_one(tier):
    for name in MENU:
        for pair in PAIRS:
            if tier == "thorough" or pair == "short":
                yield from one_preemption(name, pair, "line")
            else:
                yield from one_preemption(name, pair, "shared")


def cases_two(tier):
    for name in MENU:
        for pair in ("tiny", "short", "same") if tier == "thorough" else ("tiny",):
            yield from two_preemptions(name, pair, "shared", tier == "thorough")


def cases_deep(tier):
    if tier == "thorough":
        for name in MENU:
            yield from one_preemption(name, "short", "opcode")
        for name in MENU:
            yield from two_preemptions(name, "tiny", "line")


def families():
    if not _outcomes:
        _outcomes.update(fresh_outcomes(MENU, STRINGS))
    return [
        Family("preempt1", cases_one, run, "9 configurations, either thread first, one preemption: every line of the package (thorough: for every pair of calls; quick: for one pair, the entries into methods of the configured objects for the others)"),
        Family("preempt2", cases_two, run, "9 configurations: two preemptions, every pair of entries into methods of the configured objects (quick: one thread first)"),
        Family("deep", cases_deep, run, "thorough: one preemption at bytecode granularity, two preemptions at line granularity"),
    ]
