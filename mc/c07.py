"""C07: a call depends only on the configuration and its arguments (all histories of calls and modifications of results)."""
from __future__ import annotations

import copy
import itertools

from rebulk import AppendTags, Key, Rebulk, RemoveMatch, RenameMatch, Rule
from rebulk.introspector import introspect
from rebulk.match import Match

from .canon import canon
from .configs import CONTEXTS, MENU, STRINGS, fresh_outcomes, outcome_of, plain, result_view
from .core import BFS, Family
from .sizes import sizes

ASSUMPTIONS = [
    "canonical states cover the whole object graph of the Rebulk except the inside of functions; histories are additionally explored without merging to their bound",
    "value objects supplied by the configuration itself are not modified in place by the caller",
]


def edit_tags(r):
    for i, m in enumerate(list(r) + list(r.markers)):
        m.tags.append(f"mine{i}")
        for c in m.children:
            c.tags.clear()


def edit_matches(r):
    for m in list(r) + list(r.markers):
        m.name, m.value, m.private, m.formatter = "changed", "changed", True, None
        m.end += 1
        for c in m.children:
            c.name = "c"
            c.start = 0


def edit_collections(r):
    for m in list(r):
        m.children.clear()
    r.markers.clear()
    r.append(Match(0, 1, name="n", tags=["t"]))
    r.reverse()
    r.names.add("zz") if isinstance(r.names, set) else None
    r.named("n").clear()
    r.declared_keys.clear()


def edit_values(r):
    for m in r:
        if isinstance(m.value, list) and m.name == "y":  # made by a formatter
            m.value.append("mine")
    d = r.to_dict()
    for v in d.values():
        if isinstance(v, list) and not any(m.value is v for m in r):
            v.append("mine")


EDITS = {"tags": edit_tags, "matches": edit_matches, "collections": edit_collections, "values": edit_values}


_outcomes = {}


def expected(*key):
    return outcome_of(_outcomes, *key)


class State:
    pass


def start(name):
    st = State()
    st.name = name
    st.bulk, st.owned = MENU[name](plain)
    st.before = copy.deepcopy(st.owned)
    st.results = []
    st.shared = None
    return st


def step(ctx, st, op):
    """op: ('call', string index, context index) or ('edit', kind): modify the last result."""
    if op[0] == "edit":
        if not st.results:
            return False
        EDITS[op[1]](st.results.pop())
        return True
    _, s, c = op
    context = copy.deepcopy(CONTEXTS[c])
    if st.shared is not None and context is not None:  # the caller uses one dict, and modifies it
        st.shared.clear()
        st.shared.update(context)
        context = st.shared
    got = st.bulk.matches(STRINGS[st.name][s], context)
    if ctx is not None:
        ctx.eq(result_view(got), expected(st.name, s, c), lambda: f"{st.name}: {op}")
        ctx.eq(context, CONTEXTS[c], lambda: f"{st.name}: context modified")
        ctx.eq(st.owned, st.before, lambda: f"{st.name}: an object given at configuration was modified")
    st.results.append(got)
    st.results = st.results[-1:]
    return True


def ops(name, edits=True):
    calls = [("call", s, c) for s in range(len(STRINGS[name])) for c in range(len(CONTEXTS))]
    return calls + ([("edit", e) for e in EDITS] if edits else [])


class System:
    """States: object graph of the configured Rebulk."""

    def configs(self, tier):
        return list(MENU)

    def depth(self, tier, config):
        return 6 if tier == "thorough" else 4

    def build(self, config):
        return start(config)

    def ops(self, config):
        # one transition = a call, or a call followed by a modification of what it returned
        return [(o, e) for o in ops(config, False) for e in (None, *EDITS)]

    def apply(self, ctx, st, op):
        step(ctx, st, op[0])
        if op[1]:
            step(ctx, st, ("edit", op[1]))

    def canon(self, st):
        return hash(repr(canon(st.bulk)))

    def check(self, ctx, st):
        for s in range(len(STRINGS[st.name])):
            for c in range(len(CONTEXTS)):
                step(ctx, st, ("call", s, c))


def history_cases(tier):
    for name in MENU:
        all_ops = ops(name)
        for n in (1, 2, 3):
            for first in itertools.product(all_ops, repeat=n):
                if first[0][0] == "edit" or first[-1][0] == "edit" or any(a[0] == b[0] == "edit" for a, b in zip(first, first[1:])):
                    continue
                yield name, first
        if tier == "thorough":
            short = [o for o in all_ops if o[0] == "edit" or o[2] != 2]
            for seq in itertools.product(short, repeat=4):
                if seq[0][0] == "edit" or seq[-1][0] == "edit" or any(a[0] == b[0] == "edit" for a, b in zip(seq, seq[1:])):
                    continue
                yield name, seq


def history_run(ctx, case):
    name, seq = case
    for shared in (None, {}):
        st = start(name)
        st.shared = shared
        for op in seq:
            step(ctx, st, op)
        ctx.ran()
    ctx.state((name, seq[-1]))


def pairs_cases(tier):
    """Two Rebulks of the same or other configurations used in turn: no state is shared between them."""
    for one in MENU:
        for two in MENU:
            for a in ops(one, False)[::3]:
                for b in ops(two, False)[::3]:
                    yield one, two, a, b


def pairs_run(ctx, case):
    one, two, a, b = case
    s1, s2 = start(one), start(two)
    for st, op in ((s1, a), (s2, b), (s1, ("edit", "tags")), (s2, ("edit", "matches")), (s1, a), (s2, b)):
        step(ctx, st, op)
    ctx.ran()
    ctx.state((one, two))


# -- calls between the steps of the configuration ---------------------------------------------------
class Env:
    pass


def cut(s):
    return [s]


class Lift(Rule):
    priority = 7
    consequence = AppendTags(["lifted"])

    def when(self, matches, context):
        return matches.named("s") or matches.named("p")


class Mark(Rule):
    dependency = Lift
    priority = 7
    consequence = RenameMatch("marked")

    def when(self, matches, context):
        return matches.named("cs") + [m for m in matches.tagged("lifted") if m.start == 0]


class Drop(Rule):
    priority = -3000
    consequence = RemoveMatch

    def when(self, matches, context):
        return [m for m in matches if m.start == 3 and (context or {}).get("x")]


def on_chain(fn):
    def do(e):
        if e.chain is None:
            return False
        fn(e)

    return do


def start_chain(e):
    e.chain = e.bulk.chain(name="ch", every=True)
    e.part = e.chain.string("a", name="p")


def more_parts(e):
    e.part = e.chain.regex("(?P<g>b)", name="q")


STEPS = {
    "string": lambda e: e.bulk.string("a", "ab", name="s"),
    "child": lambda e: e.child.regex("(?P<cg>b)c?", name="cs", every=True),
    "attach": lambda e: e.bulk.rebulk(e.child),
    "grand": lambda e: e.child.rebulk(e.grand),
    "grand_string": lambda e: e.grand.string("c", name="gs", tags=["g"]),
    "chain": start_chain,
    "part": on_chain(more_parts),
    "hide": on_chain(lambda e: e.part.hidden(not e.part.is_hidden)),
    "repeat": on_chain(lambda e: e.part.repeater("*" if len(e.done) % 2 else "{1,2}")),
    "rule": lambda e: e.bulk.rules(Mark, Lift()),
    "child_rule": lambda e: e.child.rules(Drop),
    "keys": lambda e: e.bulk.declare_keys(Key("s", str, str.upper), Key("g", int, len)),
    "child_keys": lambda e: e.child.declare_keys(Key("cg", str, cut), Key("s", str)),
    "defaults": lambda e: e.bulk.defaults(tags=["t"], private_names=["g"]),
    "reset": lambda e: e.bulk.reset(),
    "marker": lambda e: e.bulk.regex("c(?P<m>a)", marker=True, every=True, name="k"),
}
ONCE = ("attach", "grand", "chain", "rule", "child_rule")
GROWN_TEXTS = (("abcaab", None), ("abcaab", {"x": 1}), ("aabca", {"off": 1}))


def environment():
    e = Env()
    e.bulk, e.child, e.grand = Rebulk(), Rebulk(disabled=lambda context: "off" in context), Rebulk(default_rules=False)
    e.chain = e.part = None
    e.done = []
    return e


def do(e, name):
    if STEPS[name](e) is False:
        return
    e.done.append(name)


def grown_outcome(e, given):
    return result_view(e.bulk.matches(*given)), sorted(introspect(e.bulk, given[1]).properties), e.bulk.check_keys()


def grown_run(ctx, case):
    e = environment()
    for i, name in enumerate(case):
        for given in GROWN_TEXTS[: 1 if i else 2]:
            grown_outcome(e, given)
        do(e, name)
    fresh = environment()
    for name in case:
        do(fresh, name)
    want = [grown_outcome(fresh, given) for given in GROWN_TEXTS]
    for given, outcome in zip(GROWN_TEXTS, want):
        ctx.ran()
        ctx.eq(grown_outcome(e, given), outcome, lambda: f"{case} with calls between the steps, then {given}")
    ctx.state((case, repr(want)))


def grown_cases(tier):
    base = [("string",), ("chain",), ("child", "attach"), ("attach",)]
    for k in range(1, 5 if tier == "thorough" else 4):
        for rest in itertools.product(STEPS, repeat=k):
            for first in base:
                case = first + rest
                if all(case.count(name) <= 1 for name in ONCE):
                    yield case


def families():
    if not _outcomes:
        _outcomes.update(fresh_outcomes())
    return [
        BFS("state_graph", System(), "calls (4 strings x 3 contexts), each optionally followed by one of 4 ways of modifying the result; states are the object graphs of the configured Rebulk"),
        Family("histories", history_cases, history_run, "every sequence of up to 3 (thorough 4) calls and modifications without state merging, 9 configurations"),
        Family("two_rebulks", pairs_cases, pairs_run, "every pair of configurations used in turn"),
        Family("grown", grown_cases, grown_run, "every sequence of up to 3 (thorough 4) of 16 steps of configuration (patterns, parts, children, rules, keys, defaults) after 4 beginnings, with calls between the steps"),
        sizes("C07"),
    ]
