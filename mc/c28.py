"""C28: determinism - hash seeds, memory layouts and interpreter modes: every iteration order that the sets involved can have."""
from __future__ import annotations

import copy
import itertools
import json
import os
import subprocess
import sys
from abc import ABCMeta

from rebulk import AppendMatch, AppendTags, CustomRule, Rebulk, RemoveMatch, RemoveTags, RenameMatch, Rule
from rebulk.introspector import introspect
from rebulk.match import Match, Matches
from rebulk.pattern import BasePattern
from rebulk.rules import Rules

from . import c05
from .configs import CONTEXTS, MENU, STRINGS, fresh_outcomes, outcome_of, plain, result_view
from .core import ROOT, Family
from .sizes import sizes

ASSUMPTIONS = ["sets and dicts of the interpreter are the only source of nondeterminism (no time, no random numbers are used); the menu of configurations is that of C07"]

NAMES = ("n", "x", "y", "z")


# -- hash orders of rule classes ------------------------------------------------------------------------
class Hashed(ABCMeta):
    """Classes whose place in a set is chosen."""

    def __hash__(cls):
        return cls.__dict__.get("chosen", 7)

    def __eq__(cls, other):
        return cls is other


def rule_cases(tier):
    deep = tier == "thorough"
    for k in (2, 3, 4):
        orders = [tuple(range(k)), tuple(reversed(range(k)))] if k == 4 and not deep else list(itertools.permutations(range(k)))
        for layout in itertools.permutations(range(k)):
            for order in orders:
                if k < 4 or deep:
                    graphs = itertools.product(*[c05.subsets([j for j in range(k) if j < i]) for i in range(k)])
                else:
                    graphs = (((), (), (), ()), ((), (0,), (), (0,)), ((), (), (0, 1), ()), ((), (), (), (0, 1, 2)), ((), (0,), (0,), (0,)), ((), (), (0,), (1,)))
                for deps in graphs:
                    for priorities in ((0,) * k, (0,) * (k - 1) + (1,)):
                        for way in ("rules", "child", "children"):
                            yield layout, order, deps, priorities, way


def rule_run(ctx, case):
    layout, order, deps, priorities, way = case
    k = len(order)
    log, classes = [], []
    for i in range(k):

        def when(self, matches, context, i=i):
            log.append(("when", i, tuple(m.name for m in matches)))
            return True

        def then(self, matches, when_response, context, i=i):
            log.append(("then", i, when_response))
            matches.append(Match(i, i + 1, name=c05.NAMES[i], input_string="x" * 8))

        classes.append(Hashed(c05.NAMES[i], (Rule if i % 2 else CustomRule,), {"chosen": layout[i], "priority": priorities[i], "when": when, "then": then}))
    for i, targets in enumerate(deps):
        if targets:
            classes[i].dependency = [classes[d] for d in targets]
    want, _ = c05.reference(order, priorities, deps, (True,) * k, (True,) * k, {})
    chosen = [classes[i] for i in order]
    if way == "rules":
        Rules(*chosen).execute_all_rules(Matches(input_string="x" * 8), {})
    elif way == "child":
        Rebulk(default_rules=False).rebulk(Rebulk(default_rules=False).rules(*chosen)).matches("x" * 8)
    else:  # each registered twice, the first time counts
        one, two = (Rebulk(default_rules=False).rules(*some) for some in (chosen[:2], chosen))
        Rebulk(default_rules=False).rules(chosen[0]).rebulk(one, two).matches("x" * 8)
    ctx.ran()
    ctx.eq(log, want, lambda: f"rules registered {order}, dependencies {deps}, priorities {priorities}, hashes {layout}, registered on: {way}")
    ctx.state((order, deps, priorities, log))


# -- addresses of objects, hashes of matches and patterns --------------------------------------------------
class Layout:
    """Gives objects the identity and hash order of a permutation (of each 4 consecutive ones)."""

    def __init__(self, perm):
        self.perm, self.known, self.keep = perm, {}, []

    def place(self, n):
        return n // 4 * 4 + self.perm[n % 4]

    def id(self, x):
        if id(x) not in self.known:
            self.known[id(x)] = self.place(len(self.known))
            self.keep.append(x)
        return self.known[id(x)]

    def __enter__(self):
        self.modules = [m for name, m in sys.modules.items() if name.startswith("rebulk")]
        for m in self.modules:
            m.id = self.id
        self.hashes = [(c, c.__dict__.get("__hash__")) for c in (Match, BasePattern)]
        old = Match.__hash__
        Match.__hash__ = lambda m: self.place(old(m) % 64)
        BasePattern.__hash__ = lambda p: self.id(p)
        return self

    def __exit__(self, *exc):
        for m in self.modules:
            del m.id
        for c, h in self.hashes:
            if h is None:
                del c.__hash__
            else:
                c.__hash__ = h


_fresh = {}


def layout_cases(tier):
    for perm in itertools.permutations(range(4)):
        for name in MENU:
            for s in range(len(STRINGS[name])):
                for c in range(len(CONTEXTS)):
                    yield perm, name, s, c


def layout_run(ctx, case):
    perm, name, s, c = case
    with Layout(perm):
        bulk, _ = MENU[name](plain)
        for _ in range(2):
            got = result_view(bulk.matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c])))
            ctx.ran()
            ctx.eq(got, outcome_of(_fresh, name, s, c), lambda: f"{name}: matches{STRINGS[name][s], CONTEXTS[c]}, objects laid out in the order {perm}")
    ctx.state((name, s, c, got))


# -- collections: queries and edits whatever the layout ------------------------------------------------------
SPANS = [(0, 2), (1, 3), (1, 2), (2, 5)]


def queries(ms, pool):
    out = []

    def put(found):
        out.append([pool.index(m) if any(m is p for p in pool) else m.span for m in found])

    for m in pool:
        for query in (ms.conflicting, ms.previous, ms.next, ms.at_match):
            put(query(m))
    for a in range(6):
        put(ms.starting(a)), put(ms.ending(a)), put(ms.at_index(a))
        for b in range(a + 1, 6):
            put(ms.range(a, b)), put(ms.at_span((a, b))), put(ms.holes(a, b)), put(ms.chain_before(b, "-", start=a)), put(ms.chain_after(a, "-", end=b))
    for name in (None, *NAMES):
        put(ms.named(name))
    put(ms.tagged("t"))
    out += [list(ms.names), list(ms.tags), list(ms.to_dict().items())]
    return out


def collection_cases(tier):
    for perm in itertools.permutations(range(4)):
        for chosen in itertools.product(range(len(SPANS)), repeat=4 if tier == "thorough" else 3):
            yield perm, chosen


def build(chosen):
    pool = [Match(*SPANS[i], name=NAMES[k % 3], value=f"v{k % 2}", tags=["t", f"u{k}"], input_string="ab-cde") for k, i in enumerate(chosen)]
    return Matches(pool, input_string="ab-cde"), pool


def collection_run(ctx, case):
    perm, chosen = case
    want = queries(*build(chosen))
    with Layout(perm):
        got = queries(*build(chosen))
    ctx.ran(2)
    ctx.eq(got, want, lambda: f"matches at {[SPANS[i] for i in chosen]} laid out in the order {perm}")
    ctx.state((chosen, got))


# -- processes: hash seeds and optimisation ------------------------------------------------------------------
def extras():
    """Orders users can see."""
    child = Rebulk().regex("(?P<z>a)|(?P<y>b)", children=True, tags=["v", "w"]).string("q", name="p", properties={"p": ["1", "2"], "o": [None]})
    bulk = Rebulk().string("a", "b", name="n", tags=["t", "u"], value={"n": "N", "x": "X"}).regex("(?P<x>a)(?P<n>b)(?P<y>c)?", every=True).chain(name="c").regex("(?P<z>b)").string("a", name="y").repeater("+").close().rebulk(child)
    for given in (["c", "a", "d"], ["d", "b"], ["b", "a", "b"]):
        own = {"tags": given, "value": {"n": "1", "m": "2"}, "ignore_names": ["i", "j"], "private_names": given}
        bulk.rebulk(Rebulk().defaults(tags=["a", "b", "c"], value={"m": "3", "k": "4"}, ignore_names=["j", "k", "i"]).regex("(?P<a>a)(?P<d>b)", every=True, **own))
    many = ["one", "two", "three", "four", "five", "six"]
    for k, consequence in enumerate(([AppendTags(many), RemoveTags(["two", "t", "a", "five"])], [AppendTags(many[::-1])], [RenameMatch("m"), AppendTags(["seven", "six", "eight"])], RemoveMatch, [RemoveTags(many[1:4]), AppendTags(many)], AppendMatch("added"))):

        class Edit(Rule):
            priority = -k

            def when(self, matches, context, k=k):
                found = matches.range(k, k + 3)
                if isinstance(self.consequence, list):  # a response for each
                    return [found[:2], found[1:3]][: len(self.consequence)]
                return [Match(m.end, m.end + 1, name="new", input_string=m.input_string) for m in found[:3]] if k == 5 else found[-1:]

        Edit.consequence = consequence
        bulk.rules(Edit)
    ms = bulk.matches("abaabcab")
    seen = introspect(bulk, {})
    several = [[ms.index(m) for m in ms.named(*names)] for names in (ms.names, list(ms.names)[::-1], ("z", "x", "n", "y", "n", "none", "m", "a"))]
    several.append([m.named("z", "n") for m in ms])
    return [several, [(m.span, m.name, m.value, m.tags, m.private) for m in ms], list(ms.names), list(ms.tags), [[str(k), repr(v)] for k, v in ms.to_dict(details=False).items()], [str(m.names and sorted(m.names)) for m in ms],
            sorted((str(k), sorted(map(str, v))) for k, v in seen.properties.items()), bulk.declare_keys().check_keys()]


def everything():
    out = []
    for name in MENU:
        for s in range(len(STRINGS[name])):
            for c in range(len(CONTEXTS)):
                out.append([[name, s, c], repr(result_view(MENU[name](plain)[0].matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c]))))])
    out.append(["extras", repr(extras())])
    return out


ORDER_CODE = "print(*{'n', 'x', 'y', 'z'})"
MODES = ("", "-O", "-OO")


def process_cases(tier):
    """One seed for every order in which the set of the four names can be iterated."""
    orders, seed = {}, 0
    limit = 1200
    while len(orders) < 24 and seed < limit:
        order = _order(seed)
        orders.setdefault(order, seed)
        seed += 1
    for order, seed in sorted(orders.items()):
        for mode in MODES if tier == "thorough" or order == min(orders) else MODES[:1]:
            yield order, seed, mode


_orders = {}


def _order(seed):
    if seed not in _orders:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        _orders[seed] = subprocess.run([sys.executable, "-S", "-s", "-c", ORDER_CODE], env=env, capture_output=True, text=True, check=True).stdout.strip()
    return _orders[seed]


_want = []


def process_run(ctx, case):
    order, seed, mode = case
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    code = "import json, logging; logging.disable(logging.CRITICAL); from mc import c28; print(json.dumps(c28.everything()))"
    p = subprocess.run([sys.executable, *mode.split(), "-c", code], env=env, cwd=ROOT, capture_output=True, text=True)
    what = f"PYTHONHASHSEED={seed} (sets iterated as {order}) {mode}"
    ctx.eq(p.returncode, 0, lambda: what + ": " + p.stderr[-600:])
    got = json.loads(p.stdout)
    for g, w in zip(got, _want, strict=True):
        ctx.eq(g, w, what)
        ctx.ran()
    ctx.state(case)


def families():
    if not _fresh:
        _fresh.update(fresh_outcomes())
        for seed in range(160):
            _order(seed)
        _want[:] = json.loads(json.dumps(everything()))
    return [
        Family("rules", rule_cases, rule_run, "2-4 rule classes with every order of their hashes x every acyclic dependency graph (4: a few, two orders) x registration orders x priorities, registered on Rules, a child, or a Rebulk and its children"),
        Family("layouts", layout_cases, layout_run, "9 configurations x 4 strings x 3 contexts x every permutation of the addresses and hashes of each 4 consecutive objects"),
        Family("collections", collection_cases, collection_run, "3 (thorough 4) matches at every choice of 4 spans x the same permutations: every query"),
        Family("processes", process_cases, process_run, "a process of its own for each of the 24 orders in which the set of the four names can be iterated (a hash seed for each), and with -O / -OO: every configuration, string and context"),
        sizes("C28"),
    ]
