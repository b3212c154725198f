"""C22: laws of match equality, hash and order - all pairs and triples of a pool of matches, including matches produced by patterns."""
from __future__ import annotations

import itertools
import re
from types import SimpleNamespace

from rebulk import Rebulk
from rebulk.match import Match, Matches

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["values and names have lawful equality themselves; parents are non-empty matches"]
TEXT = "aba"


def wrap(s):
    return f"<{s}>"


def empty(s):
    return ""


FORMATTERS = {"wrap": wrap, "empty": empty, "list": list}
SPANS = [(0, 1), (2, 3), (0, 2), (1, 2), (0, 3)]
VALUES = [None, "a", "<a>", 1, True, ["a"], ""]
NAMES = [None, "n", "m"]
PARENTS = [None, 0, 1, 2]
PARENT_SPECS = [((0, 3), None, "p"), ((0, 3), None, "q"), ((0, 2), "v", "p")]
LOOKALIKE = SimpleNamespace(span=(0, 2), start=0, end=2, value="ab", name=None, parent=None, raw="ab", tags=[], children=[], initiator=None)
OTHERS = [None, 1, "a", (0, 1), [], object(), LOOKALIKE, re.match("ab", "ab")]


def spec_value(spec):
    (start, end), value, _, _, formatter = spec[:5]
    raw = TEXT[start:end]
    return value if value else FORMATTERS[formatter](raw) if formatter else raw


def spec_key(spec):
    """What equality is about."""
    parent = spec[3]
    return spec[0], spec_value(spec), spec[2], None if parent is None else PARENT_SPECS[parent][0:1] + (PARENT_SPECS[parent][1] or TEXT[slice(*PARENT_SPECS[parent][0])], PARENT_SPECS[parent][2])


class Derived(Match):
    """Matches of another class are matches."""


def make(spec, cls=Match):
    (start, end), value, name, parent, formatter = spec[:5]
    p = None
    if parent is not None:
        (ps, pe), pv, pn = PARENT_SPECS[parent]
        p = Match(ps, pe, value=pv, name=pn, input_string=TEXT)
    extra = dict(tags=["t"], private=True, marker=True, conflict_solver=max) if len(spec) > 5 and spec[5] else {}
    return cls(start, end, value=list(value) if isinstance(value, list) else value, name=name, parent=p, formatter=FORMATTERS.get(formatter), input_string=TEXT, **extra)


def one_run(ctx, spec):
    (start, end), value, name, parent, formatter = spec[:5]
    m = make(spec)
    ctx.ran()
    ctx.eq((m.span, len(m), m.raw, m.value, m.has_literal_value, m.name), ((start, end), end - start, TEXT[start:end], spec_value(spec), bool(value), name), lambda: f"{spec}")
    ctx.ok((m.initiator is m) if parent is None else (m.initiator is m.parent), "initiator")
    for span in SPANS:  # nothing of another span is kept
        m.start, m.end = span
        ctx.eq((m.span, len(m), m.raw, m.value, m.raw_start, m.raw_end), (span, span[1] - span[0], TEXT[slice(*span)], spec_value((span, *spec[1:])), *span), lambda: f"{spec} moved to {span}")
        ctx.eq(m == make((span, *spec[1:])), True, lambda: f"{spec} moved to {span}")
    m.start, m.end = start, end
    for raw in SPANS:  # a raw span of its own
        m.raw_start, m.raw_end = raw
        ctx.eq((m.span, len(m), bool(m), m.raw), ((start, end), end - start, True, TEXT[slice(*raw)]), lambda: f"{spec} with raw span {raw}")
    m.raw_start = m.raw_end = None
    ctx.eq((m.raw, m.value, m.raw_start, m.raw_end), (TEXT[start:end], spec_value(spec), start, end), lambda: f"{spec} without a raw span any more")
    h = hash(m)
    keep = {m}
    for change in ("value", "name", "tags", "children", "private", "formatter"):
        if change == "value":
            m.value = "other"
        elif change == "name":
            m.name = "other"
        elif change == "tags":
            m.tags.append("z")
        elif change == "children":
            m.children.append(Match(0, 1, parent=m, input_string=TEXT))
        elif change == "private":
            m.private = True
        else:
            m.formatter = wrap
        ctx.eq(hash(m), h, lambda: f"{spec}: hash after changing its {change}")
        ctx.ok(m in keep, lambda: f"{spec}: no longer found in a set after changing its {change}")
    for o in OTHERS:
        ctx.ok(not (m == o) and m != o and not (o == m), lambda: f"{spec} == {o!r}")
        for op in ("__lt__", "__le__", "__gt__", "__ge__"):
            ctx.raises(TypeError, lambda: {"__lt__": lambda: m < o, "__le__": lambda: m <= o, "__gt__": lambda: m > o, "__ge__": lambda: m >= o}[op](), f"{op} with {o!r}")
    ctx.state(spec)


def pool(tier):
    out = [(s, v, n, p, f) for s in SPANS for v in VALUES for n in NAMES for p in PARENTS for f in (None, *FORMATTERS)]
    return out


def one_cases(tier):
    for spec in pool(tier):
        yield spec
        yield spec + (1,)


def pair_run(ctx, case):
    a_spec, b_spec = case
    a, b = make(a_spec), make(b_spec)
    equal = spec_key(a_spec) == spec_key(b_spec)
    what = lambda: f"{a_spec} and {b_spec}"
    ctx.ran()
    ctx.eq((a == b, b == a, a != b, b != a), (equal, equal, not equal, not equal), what)
    if equal:
        ctx.eq(hash(a), hash(b), lambda: what() + ": hashes")
    ctx.eq((a < b, a <= b, a > b, a >= b), (a.span < b.span, a.span <= b.span, a.span > b.span, a.span >= b.span), lambda: what() + ": order")
    ctx.eq((a in [b], a in {b}, [b].count(a), len({a, b})), (equal, equal, int(equal), 1 if equal else 2), lambda: what() + ": in containers")
    d = make(b_spec, Derived)
    ctx.eq((a == d, d == a, a != d, d != a, hash(a) == hash(d) or not equal, a < d, d <= a), (equal, equal, not equal, not equal, True, a.span < d.span, d.span <= a.span), lambda: what() + " of a derived class")
    ctx.ok(a == a and not a != a and a <= a and a >= a and not a < a, what)
    ctx.state((a.span, b.span, equal))


def pair_cases(tier):
    specs = pool(tier)
    small = [s for s in specs if s[4] in (None, "wrap") and s[0] in ((0, 1), (2, 3), (0, 2)) and (s[3] != 2 or s[2] is None)]
    if tier != "thorough":
        small = [s for s in small if s[1] in (None, "a", "<a>", 1, True)]
    for a in small:
        for b in small:
            yield a, b
    for i, a in enumerate(specs[::3]):
        for b in specs[i % 7::7]:
            yield a, b + (1,)


def triple_run(ctx, case):
    ms = [make(s) for s in case]
    keys = [spec_key(s) for s in case]
    a, b, c = ms
    ctx.ran()
    if a == b and b == c:
        ctx.ok(a == c, lambda: f"{case}: transitivity of ==")
    if a <= b and b <= c:
        ctx.ok(a <= c, lambda: f"{case}: transitivity of <=")
    ctx.ok((a <= b) + (b < a) == 1 and (a >= b) + (a < b) == 1, lambda: f"{case}: total")
    ctx.eq(len(set(ms)), sum(1 for i in range(3) if not any(keys[i] == keys[j] for j in range(i))), lambda: f"{case}: distinct in a set")
    order = sorted(range(3), key=lambda i: case[i][0])
    ctx.eq([id(m) for m in sorted(ms)], [id(ms[i]) for i in order], lambda: f"{case}: sorted")
    ctx.eq([id(m) for m in sorted(Matches(ms))], [id(ms[i]) for i in order], lambda: f"{case}: sorted")
    ctx.eq((max(ms).span, min(ms).span), (max(s[0] for s in case), min(s[0] for s in case)), "max, min")
    ctx.state(tuple(keys[i][0] for i in range(3)))


def triple_cases(tier):
    specs = [(s, v, n, p, f) for s in SPANS[:4] for v in (None, "a") for n in (None, "n") for p in (None, 0) for f in (None, "wrap")]
    if tier != "thorough":
        specs = [s for s in specs if s[3] is None or s[4] is None]
    yield from itertools.product(specs, repeat=3)


# -- trees --------------------------------------------------------------------------------------
NODES = [("n", ["t"]), ("m", []), (None, ["u", "t"])]


def build(tree, parent=None):
    """tree: (node index, children)."""
    name, tags = NODES[tree[0]]
    m = Match(0, 3, name=name, tags=tags, parent=parent, input_string=TEXT)
    for sub in tree[1]:
        m.children.append(build(sub, m))
    return m


def leaves(tree):
    if not tree[1]:
        return {NODES[tree[0]][0]}
    return set().union(*[leaves(t) for t in tree[1]])


def nodes(m, tree):
    yield m, tree
    for c, t in zip(m.children, tree[1]):
        yield from nodes(c, t)


def tree_run(ctx, tree):
    root = build(tree)
    for m, t in nodes(root, tree):
        ctx.eq(set(m.names), leaves(t), lambda: f"{tree}: names")
        ctx.ok(m.initiator is root, lambda: f"{tree}: initiator")
        for asked in ((), ("n",), ("m",), ("zz",), ("zz", "m"), ("n", "m"), ("zz", "yy", "n"), ("zz", "yy", "zz", "xx", "m")):
            ctx.eq(m.named(*asked), any(a in leaves(t) for a in asked), lambda: f"{tree}: named{asked}")
        tags = NODES[t[0]][1]
        for asked in ((), ("t",), ("u",), ("zz",), ("zz", "t"), ("zz", "yy", "u"), ("zz", "yy", "zz", "xx", "t")):
            ctx.eq(m.tagged(*asked), any(a in tags for a in asked), lambda: f"{tree}: tagged{asked}")
        ctx.eq([c.parent is m for c in m.children], [True] * len(t[1]), "parents")
    ctx.ran()
    ctx.state(tree)


def trees(depth, width):
    for node in range(len(NODES)):
        yield node, ()
        if depth:
            subs = list(trees(depth - 1, width))
            for k in range(1, width + 1):
                for combo in itertools.product(subs, repeat=k):
                    yield node, combo


def tree_cases(tier):
    yield from trees(2, 2 if tier == "thorough" else 1)
    yield from trees(1, 3)
    for node in range(3):
        subs = [(1, ()), (2, ()), (0, ((1, ()),)), (1, ((0, ()), (2, ())))]
        for k in (1, 2, 3):
            for combo in itertools.product(subs, repeat=k):
                yield node, combo


def families():
    return [
        Family("single", one_cases, one_run, "every match of a pool: 5 spans x 7 values x 3 names x 4 parents x 4 formatters, with and without other attributes"),
        Family("pairs", pair_cases, pair_run, "pairs of the pool"),
        Family("triples", triple_cases, triple_run, "all triples over 4 spans x values x names x parents x formatters"),
        Family("trees", tree_cases, tree_run, "trees of matches: names, named, tagged, initiator"),
        sizes("C22"),
    ]
