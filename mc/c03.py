"""C03: conflict resolution keeps exactly the longest overlapping matches; custom solvers decide what they are asked."""
from __future__ import annotations

import itertools

from rebulk import Rebulk
from rebulk.match import Match

from .c02 import spans
from .core import Family
from .sizes import sizes

ASSUMPTIONS = [
    "spans over 4-6 positions; when two solvers contradict each other on a pair, only 'exactly what one of them designated, and not both' is required",
]


def const(value):
    return lambda s: value


def overlap(a, b):
    return a[0] < b[1] and b[0] < a[1]


def expected(layout, private):
    pub = [i for i in range(len(layout)) if not private[i]]
    size = lambda i: layout[i][1] - layout[i][0]
    return [i for i in pub if not any(overlap(layout[i], layout[j]) and size(j) > size(i) for j in pub)]


def text_of(n):
    return "abcdefgh"[:n]


def default_run(ctx, case):
    n, layout, private, mode = case
    text = text_of(n)
    bulk = Rebulk()
    if mode == "grouped":
        bulk.functional(lambda s: [(a, b, {"name": str(i), "private": private[i], "tags": [str(i)]}) for i, (a, b) in enumerate(layout)])
    else:
        for i, span in enumerate(layout):
            name = "same" if mode == "same" else f"n{i}"
            if i % 2:
                bulk.functional(const(span), name=name, private=private[i], tags=[str(i)])
            else:
                bulk.string(text[slice(*span)], name=name, private=private[i], tags=[str(i)])
    got = bulk.matches(text)
    ctx.ran()
    ctx.eq([m.tags for m in got], [[str(i)] for i in expected(layout, private)], lambda: f"survivors of {layout} private={private}")
    for x in got:
        for y in got:
            ctx.ok(not overlap(x.span, y.span) or len(x) == len(y), "overlapping survivors have the same length")
    ctx.state((layout, private))


MODES = ("named", "grouped", "same")


def default_cases(tier):
    deep = tier == "thorough"
    for k in range(4):
        for layout in itertools.product(spans(5), repeat=k):
            for private in itertools.product((False, True), repeat=k):
                for mode in MODES if k < 3 or deep else ("same",) if any(private) else ("named", "grouped"):
                    yield 5, layout, private, mode
    for layout in itertools.product(spans(4), repeat=4):
        for mode in MODES if deep else ("named",):
            yield 4, layout, (False,) * 4, mode
    big = 7 if deep else 6
    for layout in itertools.combinations_with_replacement(spans(big), 4):
        yield big, layout, (False,) * 4, "same"
        yield big, layout[::-1], (False,) * 4, "grouped"
    if deep:
        for layout in itertools.combinations(spans(5), 5):
            yield 5, layout, (False,) * 5, "grouped"
            yield 5, layout[::-1], (False,) * 5, "same"


def raw_run(ctx, case):
    """Without default rules nothing is removed; a later rule sees the private matches, and only they are removed at the end."""
    layout, private = case
    text = text_of(4)
    bulk = Rebulk(default_rules=False)
    for i, span in enumerate(layout):
        bulk.functional(const(span), name=str(i), private=private[i])
    ctx.ran()
    ctx.eq([m.name for m in bulk.matches(text)], [str(i) for i in range(len(layout))], "without default rules")
    ctx.state(case)


def raw_cases(tier):
    for k in range(3):
        for layout in itertools.product(spans(4), repeat=k):
            for private in itertools.product((False, True), repeat=k):
                yield layout, private


KINDS = ("none", "me", "other", "default", "null")


def solver_run(ctx, case):
    layout, kinds = case
    text = text_of(4)
    bulk = Rebulk()
    k = len(layout)
    seen = {}

    def solver(i):
        kind = kinds[i]
        if kind == "none":
            return None

        def solve(match, conflicting):
            seen.setdefault((i, match.name), None)
            return {"me": match, "other": conflicting, "default": "".join(["__def", "ault__"]), "null": None}[kind]

        return solve

    for i, span in enumerate(layout):
        bulk.functional(const(span), name=str(i), conflict_solver=solver(i))
    got = [int(m.name) for m in bulk.matches(text)]
    ctx.ran()
    ctx.ok(all(str(i) == name for i, name in seen), lambda: f"a solver is called with its own match first: {sorted(seen)}")
    size = lambda i: layout[i][1] - layout[i][0]

    def answer(match, conflicting):
        """Verdict when conflicting is found against match: solver of conflicting, then of match, then default."""
        for me, other in ((conflicting, match), (match, conflicting)):
            kind = kinds[me]
            if kind == "me":
                return me
            if kind == "other":
                return other
            if kind == "null":
                return None
        return match if size(match) < size(conflicting) else conflicting if size(match) > size(conflicting) else None

    removed = [i for i in range(k) if i not in got]
    what = f"layout {layout}, solvers {kinds}: kept {got}"
    designated = set()
    for i in range(k):
        for j in range(i):
            if overlap(layout[i], layout[j]):
                one, two = answer(i, j), answer(j, i)
                designated |= {one, two}
                if one is not None and one == two:
                    ctx.ok(not (i in got and j in got), lambda: what + f": {one} must lose against {i if one == j else j}")
    ctx.ok(set(removed) <= designated, lambda: what + ": removed without being designated")
    if k == 2 and overlap(*layout):
        one, two = answer(0, 1), answer(1, 0)
        if one == two:
            ctx.eq(removed, [] if one is None else [one], what)
        else:
            ctx.ok(len(removed) == 1 or (None in (one, two) and not removed), what + ": contradictory solvers")
    ctx.state((layout, kinds, got))


def solver_cases(tier):
    for k in (1, 2, 3):
        pool = spans(4)
        for layout in itertools.product(pool, repeat=k):
            if k == 3 and not (overlap(layout[0], layout[1]) or overlap(layout[1], layout[2]) or overlap(layout[0], layout[2])):
                continue
            for kinds in itertools.product(KINDS, repeat=k):
                yield layout, kinds


DESIGNATIONS = ("third", "copy", "both_third")


def designates_run(ctx, case):
    """A solver may designate a match other than the two it is asked about: that one is removed, and only that one."""
    layout, kind, asker = case
    text = text_of(5)
    third = []

    def note(match):
        third.append(match)
        return True

    def solve(match, conflicting):
        if kind == "copy":
            return Match(match.start, match.end, name=match.name, input_string=match.input_string)
        return third[-1]

    bulk = Rebulk().functional(const(layout[2]), name="2", validator=note)
    for i in (0, 1):
        bulk.functional(const(layout[i]), name=str(i), conflict_solver=solve if i == asker or kind == "both_third" else None)
    for call in range(2):
        got = sorted(m.name for m in bulk.matches(text))
        ctx.ran()
        want = sorted({"0", "1", "2"} - {str(asker) if kind == "copy" else "2"})
        ctx.eq(got, want, lambda: f"matches at {layout}, the solver of {asker} designating {kind}, call {call}")
    ctx.state(case)


def designates_cases(tier):
    for layout in itertools.product(spans(5), repeat=3):
        if overlap(layout[0], layout[1]) and not overlap(layout[0], layout[2]) and not overlap(layout[1], layout[2]):
            for kind in DESIGNATIONS:
                for asker in (0, 1):
                    yield layout, kind, asker


# patterns with parents: (expression, name of the group shown) ; children are judged by the length of their outermost parent
PARENTS = [r"(?P<k{i}>a)b", r"a(?P<k{i}>b)c", r"(?P<k{i}>b)", r"(?P<k{i}>c)d", r"b(?P<k{i}>cd)", r"(?P<k{i}>a)b(?P<l{i}>c)d", r"(?P<k{i}>b(?P<l{i}>c))"]
PLAIN = ["a", "b", "bc", "abc", "cd", "d"]


def parents_run(ctx, case):
    text = "abcd"
    bulk = Rebulk()
    cand = []  # (name, span, length of the outermost parent)
    import re

    for i, (kind, j) in enumerate(case):
        if kind == "re":
            expr = PARENTS[j].replace("{i}", str(i))
            bulk.regex(expr, children=True)
            m = re.search(expr, text)
            for name in m.re.groupindex:
                cand.append((name, m.span(name), m.end() - m.start()))
        elif kind == "chain":
            expr = PARENTS[j].replace("{i}", str(i))
            bulk.chain(children=True).regex(expr, children=True).regex("d").repeater("?").hidden().close()
            m = re.search(expr, text)
            top = m.end() - m.start()
            for name in m.re.groupindex:
                lo = min(m.start(g) for g in m.re.groupindex)
                hi = max(m.end(g) for g in m.re.groupindex)
                cand.append((name, m.span(name), hi - lo))
        else:
            bulk.string(PLAIN[j], name=f"s{i}")
            at = text.find(PLAIN[j])
            cand.append((f"s{i}", (at, at + len(PLAIN[j])), len(PLAIN[j])))
    got = [m.name for m in bulk.matches(text)]
    ctx.ran()
    what = f"{case}: kept {got} of {cand}"
    ctx.eq(sorted(set(got)), sorted(got), "no duplicates")
    for name, span, top in cand:
        stronger = [o for o in cand if o[0] != name and overlap(span, o[1]) and o[2] > top]
        if name in got:
            ctx.ok(not any(o[0] in got for o in stronger), lambda: what + f": {name} kept with a longer one")
        else:
            ctx.ok(bool(stronger), lambda: what + f": {name} removed for nothing")
    ctx.state((case, got))


def parents_cases(tier):
    menu = [("re", j) for j in range(len(PARENTS))] + [("s", j) for j in range(len(PLAIN))] + [("chain", j) for j in range(len(PARENTS))]
    for k in (1, 2, 3):
        if k == 3 and tier != "thorough":
            menu = menu[:13] + menu[-2:]
        yield from itertools.product(menu, repeat=k)


def families():
    return [
        Family("default", default_cases, default_run, "every sequence of up to 3 (4: both directions) spans over 4-6 positions x private flags, one pattern each or one for all, with distinct or equal names"),
        Family("no_default_rules", raw_cases, raw_run, "every sequence of up to 2 spans over 4 positions x private flags without default rules"),
        Family("solvers", solver_cases, solver_run, "every sequence of up to 3 spans x every assignment of solver behaviours (none, own match, other match, __default__, None)"),
        Family("designates", designates_cases, designates_run, "every two overlapping spans and one apart over 5 positions: solvers that designate the third match or a copy of their own"),
        Family("parents", parents_cases, parents_run, "every sequence of up to 3 patterns from 7 regexes with groups, 6 strings (and 7 chains): children judged by their outermost parent"),
        sizes("C03"),
    ]
