"""C04: private matches never leak, nothing public is lost because of them, and markers stay apart."""
from __future__ import annotations

import itertools

from rebulk import CustomRule, Rebulk

from .c11 import build
from .core import Family
from .refpattern import process, view
from .sizes import sizes

ASSUMPTIONS = [
    "with children in play the surviving public matches are constrained (no survivor overlaps a survivor with a longer outermost parent; nothing is removed without a longer overlapping one), not fully determined",
    "solvers and validators from small tables; text of 6 characters",
]

TEXT = "abcabd"
G1 = ("(?P<x>a)(?P<y>b)",)
G2 = ("(?P<x>ab)(c)?",)

MENU = [
    ("string", ("ab",), {}),
    ("string", ("ab",), {"private": True}),
    ("string", ("ab",), {"marker": True}),
    ("string", ("ab",), {"marker": True, "private": True, "name": "n"}),
    ("string", ("abc",), {"private": 1, "name": "y"}),
    ("string", ("b", "c"), {"name": "n"}),
    ("string", ("b",), {"name": "n", "private_names": ["n"]}),
    ("string", ("abc",), {"private": True, "name": "n"}),
    ("string", ("abc",), {"name": "n"}),
    ("string", ("abc",), {"marker": True}),
    ("string", ("ab",), {"private_parent": True, "name": "x"}),
    ("string", ("ab", "abd"), {"name": "x"}),
    ("string", ("ab",), {"conflict_solver": "@cs_default", "tags": ["t"]}),
    # solvers of private matches are never asked, whatever they would answer
    ("string", ("abc",), {"private": True, "conflict_solver": "@cs_other"}),
    ("string", ("bc",), {"private": True, "conflict_solver": "@cs_self", "name": "n"}),
    ("functional", (((0, 2), (2, 5)),), {}),
    ("functional", (((0, 2), (2, 5)),), {"private": True}),
    ("functional", (((1, 4),),), {"marker": True}),
    ("functional", (((1, 2), (1, 2)),), {"name": "y", "private_names": ["x"]}),
    ("functional", (((0, 2, {"marker": True}), (1, 3), (2, 5, {"private": True})),), {}),
    ("functional", (((0, 2, {"marker": False}), (1, 3), (2, 5, {"private": True})),), {"marker": True}),
    ("functional", (((0, 3, {"private": False}), (2, 6), (1, 3, {"marker": True, "name": "n"})),), {"private": True}),
    ("regex", G1, {}),
    ("regex", G1, {"children": True}),
    ("regex", G1, {"children": True, "private_names": ["x"]}),
    ("regex", G1, {"private_children": True}),
    ("regex", G1, {"private_parent": True, "children": True}),
    ("regex", G1, {"every": True, "private_names": ["y"], "name": "n"}),
    ("regex", G1, {"marker": True, "children": True}),
    ("regex", G1, {"marker": True, "every": True, "private_children": True}),
    ("regex", G2, {"private": True, "every": True}),
    ("regex", G2, {"children": True, "name": "n", "private_names": ["n"]}),
    ("regex", G2, {"private_parent": True, "private_children": True}),
    ("regex", G2, {"children": True, "private_parent": True, "validator": {"__children__": "@v_private"}}),
    ("regex", G2, {"every": True, "ignore_names": ["x"], "private_parent": True}),
]


def overlap(a, b):
    return a.start < b.end and b.start < a.end


class Spy(CustomRule):
    """Sees what rules between the two default rules see."""

    priority = 0
    seen = None

    def when(self, matches, context):
        self.seen = [(view(m), id(m)) for m in matches]
        self.markers = [view(m) for m in matches.markers]

    def then(self, matches, when_response, context):
        pass


class Late(Spy):
    priority = -2047


def run(ctx, case):
    bulk = Rebulk()
    cands, markers = [], []
    for i in case:
        kind, patterns, opts = MENU[i]
        bulk.pattern(build(kind, patterns, opts))
        for m in process(kind, patterns, TEXT, opts):
            (markers if m.marker else cands).append(m)
    spy, late = Spy(), Late()
    bulk.rules(spy, late)
    got = bulk.matches(TEXT)
    ctx.ran()
    what = lambda: f"patterns {[MENU[i] for i in case]}"
    public = [m for m in cands if not m.private]
    flat = all(not m.children and not m.parent for m in cands)
    length = lambda m: len(m.initiator)
    ctx.ok(not any(m.private for m in got), lambda: f"{what()}: private match returned: {list(got)}")
    ctx.ok(not any(m.marker for m in got), lambda: f"{what()}: marker returned: {list(got)}")
    ctx.eq([view(m) for m in got.markers], [view(m) for m in markers], lambda: f"{what()}: markers")
    if flat:
        keep = [m for m in public if not any(overlap(m, o) and len(o) > len(m) for o in public)]
        ctx.eq([view(m) for m in got], [view(m) for m in keep], lambda: f"{what()}: public matches")
    else:
        # the survivors are a sub-sequence of the candidates, decided only by public overlaps
        rows = [view(m) for m in public]
        pos, kept, left = 0, [], []
        seen = [view(m) for m in got]
        for row in seen:
            while pos < len(rows) and rows[pos] != row:
                left.append(public[pos])
                pos += 1
            ctx.ok(pos < len(rows), lambda: f"{what()}: {row} is not a candidate, or out of order: {seen}")
            kept.append(public[pos])
            pos += 1
        left += public[pos:]
        for m in left:
            ctx.ok(any(overlap(m, o) and length(o) > length(m) for o in public), lambda: f"{what()}: public {view(m)} lost, kept {seen}")
        for m in kept:
            ctx.ok(not any(overlap(m, o) and length(o) > length(m) for o in kept), lambda: f"{what()}: {view(m)} kept beside a longer one")
    # between the default rules: the private candidates all there, the public ones as in the result
    for rule in (spy, late):
        ctx.eq([v for v, _ in rule.seen if v[3]], [view(m) for m in cands if m.private], lambda: f"{what()}: private matches seen by a rule")
        ctx.eq([i for v, i in rule.seen if not v[3]], [id(m) for m in got], lambda: f"{what()}: public matches seen by a rule, by identity")
        ctx.eq(rule.markers, [view(m) for m in markers], lambda: f"{what()}: markers seen by a rule")
    ctx.state((case, [view(m) for m in got]))


def cases(tier):
    n = len(MENU)
    for k in (1, 2, 3):
        yield from itertools.product(range(n), repeat=k)
    if tier == "thorough":
        yield from itertools.product(range(n), repeat=4)


def families():
    return [Family("patterns", cases, run, "every sequence of up to 3 (thorough 4) patterns from a menu of %d (kinds x private / marker / children options, equal and overlapping text)" % len(MENU)), sizes("C04")]
