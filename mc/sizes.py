"""
Uniform scenarios of every size: what holds for two or three matches, patterns, parts, rules or characters must hold for forty and for two hundred.

Each scenario is a function of one number with an answer known in closed form (or by the definition); `sizes(property)` runs all those of a
property for every size of SIZES. They complement the exhaustive small scopes of the other families, which cannot see a limit that is larger.
"""
from __future__ import annotations

import copy
import dataclasses
import itertools
import re
from typing import Any

from rebulk import AppendMatch, AppendTags, CustomRule, Key, Rebulk, RemoveMatch, RemoveTags, RenameMatch, Rule
from rebulk.formatters import formatters
from rebulk.introspector import introspect
from rebulk.match import Markers, Match, Matches
from rebulk.rules import Rules
from rebulk.toposort import toposort, toposort_flatten
from rebulk.validators import chars_after, chars_before, chars_surround, validators

from .core import Family

SIZES = [*range(1, 41), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129]
MORE = [199, 200, 201, 255, 256, 257, 511, 512, 513, 1000, 1024, 1100]
DEEP = [*range(41, 130), *MORE]
RUN: dict[str, list] = {}


def scenario(*properties, large=True, most=10**9):
    def add(fn):
        for p in properties:
            RUN.setdefault(p, []).append((fn, large, most))
        return fn

    return add


def sizes(prop):
    fns = {fn.__name__: fn for fn, _, _ in RUN[prop]}

    def cases(tier):
        for fn, large, most in RUN[prop]:
            for n in sorted({*SIZES, *(DEEP if tier == "thorough" else ()), *(MORE if large else ())}):
                if n <= most:
                    yield fn.__name__, n

    def run(ctx, case):
        name, n = case
        ctx.ran()
        fns[name](ctx, n)
        ctx.state(case)

    return Family("sizes", cases, run, f"{len(fns)} uniform scenario(s) ({', '.join(fns).replace('_', ' ')}) at every size 1-40 and around 50, 64, 100 and 128, those fast enough also around 200, 256, 512 and 1000 (thorough: every size to 129)")


def spans_of(matches):
    return [m.span for m in matches]


def fixed(*items):
    return lambda string: list(items)


def same(ctx, got, want, what):
    ctx.comparisons += 1
    ctx.ok(len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: f"{what}: got {got!r}, expected {want!r}")


# -- collections ------------------------------------------------------------------------------------------------------------------
def lookups(ctx, c, ref, what):
    """Every lookup of collection c against the plain list ref."""
    by = {"named": {}, "tagged": {}, "starting": {}, "ending": {}, "at_index": {}}
    for m in ref:
        if m.name:
            by["named"].setdefault(m.name, []).append(m)
        for t in m.tags:
            by["tagged"].setdefault(t, []).append(m)
        by["starting"].setdefault(m.start, []).append(m)
        by["ending"].setdefault(m.end, []).append(m)
        for i in range(*m.span):
            by["at_index"].setdefault(i, []).append(m)
    for query, table in by.items():
        keys = [*table, *(("?",) if query in ("named", "tagged") else (0, 9999))]
        for key in keys:
            same(ctx, getattr(c, query)(key), table.get(key, []), f"{what}: {query}({key!r})")
    same(ctx, list(c), ref, f"{what}: iteration")
    ctx.eq((set(c.names), set(c.tags)), (set(by["named"]), set(by["tagged"])), f"{what}: names and tags")
    ctx.eq(c.max_end, max([m.end for m in ref], default=0), f"{what}: max_end")


@scenario("C01")
def edits(ctx, n):
    def make(i):
        start = (i * 7) % (n + 3)
        return Match(start, start + 1 + i % 3, name=[f"n{i % 5}", "n", None][i % 3], tags=[f"t{i % 4}", "t"][: i % 3], marker=markers)

    for markers in (False, True):
        for warm in (False, True):
            c, ref = (Markers if markers else Matches)(), []
            steps = [("extend", lambda t: t.extend([make(i) for i in range(n)])), ("append", lambda t: t.append(last)), ("pop", lambda t: t.pop(n // 2)), ("insert", lambda t: t.insert(n // 3, last2)),
                     ("set", lambda t: t.__setitem__(n // 2, last3)), ("reverse", lambda t: t.reverse()), ("del slice", lambda t: t.__delitem__(slice(n // 4, n // 2))), ("remove", lambda t: t.remove(t[-1])),
                     ("set slice", lambda t: t.__setitem__(slice(0, 2), others)), ("iadd", lambda t: t.__iadd__(others2)), ("step", lambda t: t.__delitem__(slice(None, None, 2))), ("sort", lambda t: t.__setitem__(slice(None), sorted(t)))]
            pool = [make(i) for i in range(n)]
            steps[0] = ("extend", lambda t: t.extend(pool))
            last, last2, last3, others, others2 = make(n), make(n + 1), make(n + 2), [make(n + 3), make(n + 4), make(n + 5)], [make(n + 6)]
            for i, (name, step) in enumerate(steps):
                step(c), step(ref)
                if warm or i % 4 == 3 or i + 1 == len(steps):
                    lookups(ctx, c, ref, f"{n} matches, after {name}")
            if n % 8 == 0 or n < 40:
                lookups(ctx, c[n // 4 : n // 2], ref[n // 4 : n // 2], f"{n} matches, a slice")


@scenario("C01")
def long_matches(ctx, n):
    """Matches of n characters, within each other and side by side."""
    make = lambda a, b, name: Match(a, b, name=name, tags=["t"], input_string="x" * (2 * n))
    for warm in (False, True):
        a, b, c, d = make(0, n, "a"), make(n - 1, 2 * n, "b"), make(0, 2 * n, "a"), make(n // 2, n, "d")
        got, ref = Matches(), []
        for step in (lambda t: t.append(a), lambda t: t.append(b), lambda t: t.extend([c, d]), lambda t: t.remove(b), lambda t: t.insert(0, b), lambda t: t.pop(), lambda t: t.__delitem__(1)):
            step(got), step(ref)
            if warm:
                lookups(ctx, got, ref, f"matches of {n} characters")
        lookups(ctx, got, ref, f"matches of {n} characters")


@scenario("C02")
def far_apart(ctx, n):
    """Two matches with n positions between them; queries from everywhere."""
    text = "a" + "-" * n + "b"
    a, b = Match(0, 1, name="a", input_string=text), Match(n + 1, n + 2, name="b", input_string=text)
    c = Matches([b, a], text)
    same(ctx, c.next(a), [b], "next")
    same(ctx, c.previous(b), [a], "previous")
    same(ctx, c.chain_after(a, "-"), [b], "chain_after")
    same(ctx, c.chain_before(b, "-"), [a], "chain_before")
    same(ctx, c.chain_after(0, "-"), [a, b], "chain_after")
    same(ctx, c.chain_before(n + 2, "-"), [b, a], "chain_before")
    same(ctx, c.chain_after(a, "."), [], "chain_after")
    same(ctx, c.range(0, n + 2), [a, b], "range")
    same(ctx, c.range(1, n + 1), [], "range")
    ctx.eq(spans_of(c.holes()), [(1, n + 1)], "holes")
    ctx.eq(spans_of(c.holes(n // 2)), [(max(1, n // 2), n + 1)], "holes from the middle")
    ctx.eq(spans_of(c.holes(0, n + 2, ignore=lambda m: m is a)), [(0, n + 1)], "holes ignoring one")
    ctx.eq(spans_of(Matches([], text).holes()), [(0, n + 2)], "holes of nothing")


@scenario("C02")
def in_a_row(ctx, n):
    """n matches of 2 characters, a separator after each."""
    text = "ab-" * n
    ms = [Match(3 * i, 3 * i + 2, name="x", input_string=text) for i in range(n)]
    c = Matches([*ms[::2], *ms[1::2]], text)
    same(ctx, c.chain_after(0, "-"), ms, "chain_after")
    same(ctx, c.chain_before(3 * n, "-"), ms[::-1], "chain_before")
    same(ctx, c.chain_after(0, ""), ms[:1], "chain_after without separator")
    same(ctx, c.range(), ms, "range")
    same(ctx, c.range(3 * (n // 2)), ms[n // 2 :], "range from the middle")
    ctx.eq(spans_of(c.holes()), [(3 * i + 2, 3 * i + 3) for i in range(n)], "holes")
    for i in {0, n // 2, n - 1}:
        same(ctx, c.next(ms[i]), ms[i + 1 : i + 2], "next")
        same(ctx, c.previous(ms[i]), ms[:i][-1:], "previous")
        same(ctx, c.conflicting(ms[i]), [], "conflicting")
        same(ctx, c.conflicting(Match(0, 3 * n)), ms, "conflicting with all")
        same(ctx, c.at_span((0, 3 * i + 1)), [ms[0], ms[i]] if i else ms[:1], "at_span")
        for index in (i, i - n, -1, n, -n - 1):
            want = ms[index] if -n <= index < n else None
            ctx.ok(c.range(0, None, None, index) is want and c.chain_after(0, "-", index=index) is want, lambda: f"index {index}")


@scenario("C02")
def at_one_place(ctx, n):
    """n matches at one span, twins by value, and one around."""
    text = "-abc-"
    ms = [Match(1, 4, name="x", input_string=text) for i in range(n)]
    around = Match(0, 5, input_string=text)
    c = Matches([*ms, around], text)
    same(ctx, c.conflicting(ms[n // 2]), [m for m in ms if m is not ms[n // 2]] + [around], "conflicting")
    same(ctx, c.at_index(2), [*ms, around], "at_index")
    same(ctx, c.at_span((0, 2)), [around, *ms], "at_span")
    same(ctx, c.at_match(ms[0]), [*ms, around], "at_match")
    same(ctx, c.starting(1), ms, "starting")
    same(ctx, c.chain_after(0, ""), [around, *ms], "chain_after")
    same(ctx, c.previous(Match(4, 5)), ms, "previous")
    same(ctx, c.next(around), ms, "next")


# -- conflicts, private matches, stages -------------------------------------------------------------------------------------------
@scenario("C03", large=False, most=51)
def nested_spans(ctx, n):
    """n matches each inside the next: the longest is left; and of n equal ones, all."""
    text = "x" * (2 * n + 1)
    for order in (1, -1):
        bulk = Rebulk()
        for i in range(n)[::order]:
            bulk.functional(fixed((n - i, n + i + 1)), name=f"n{i}")
        ctx.eq(spans_of(bulk.matches(text)), [(1, 2 * n)], f"{n} nested matches")
    ctx.eq(spans_of(Rebulk().functional(fixed(*[(0, 2)] * n)).matches("ab")), [(0, 2)] * n, f"{n} equal matches")
    ctx.eq(spans_of(Rebulk().functional(fixed(*[(0, 2)] * n, (1, 4))).matches("abcd")), [(1, 4)], f"{n} equal matches and a longer one")


@scenario("C03")
def pairs_in_a_row(ctx, n):
    bulk = Rebulk().string("ab", name="short").string("abc", name="long").string("cd", name="other", conflict_solver=lambda m, o: o if len(o) == 2 else "__default__")
    got = bulk.matches("abc-" * n)
    ctx.eq([(m.name, m.span) for m in got], [("long", (4 * i, 4 * i + 3)) for i in range(n)], f"{n} pairs")
    stairs = Rebulk().functional(lambda s: [(i, i + 3) for i in range(len(s) - 2)]).matches("x" * (n + 2))
    ctx.eq(spans_of(stairs), [(i, i + 3) for i in range(n)], f"{n} matches of one length")
    solved = Rebulk().functional(lambda s: [(i, i + 3) for i in range(len(s) - 2)], conflict_solver=lambda m, o: None).matches("x" * (n + 2))
    ctx.eq(spans_of(solved), [(i, i + 3) for i in range(n)], f"{n} matches of one length, solver removing nothing")
    long = Rebulk().string("a" * n, name="n").string("a" * (n + 1), name="n+1").matches("a" * (n + 1))
    ctx.eq([m.name for m in long], ["n+1"], f"lengths {n} and {n + 1}")


@scenario("C03")
def lengths(ctx, n):
    """Three matches of about n characters, each overlapping the next: kept is what overlaps no longer one."""
    for sizes_ in {*itertools.permutations((n, n + 1, n + 2)), *itertools.permutations((2, n + 1, 10 * n)), (n + 1,) * 3, (n + 1, n + 2, n + 1), (n + 2, n + 1, n + 2)}:
        layout, at = [], 0
        for size in sizes_:
            layout.append((at, at + size))
            at += size - 1
        want = [span for i, span in enumerate(layout) if not any(abs(i - j) == 1 and sizes_[j] > sizes_[i] for j in range(3))]
        if n + 1 > 2 and min(sizes_) > 1:
            ctx.eq(spans_of(Rebulk().functional(fixed(*layout)).matches("x" * at)), want, f"lengths {sizes_}")


@scenario("C04")
def private_and_markers(ctx, n):
    bulk = Rebulk()
    for i in range(n):
        bulk.string("a", name="x", private=True).string("ab", marker=True, name=f"k{i}")
    bulk.string("a", name="x").string("abc", private=True).regex("(?P<p>a)(b)", name="q", every=True, private_names=["p"], private_children=True, private_parent=True)
    got = bulk.matches("ab-a")
    ctx.eq([(m.name, m.span, bool(m.private)) for m in got], [("x", (0, 1), False), ("x", (3, 4), False)], f"{n} private twins")
    ctx.eq([m.name for m in got.markers], [f"k{i}" for i in range(n)], f"{n} markers")
    seen = []

    class See(Rule):
        def when(self, matches, context):
            seen.append(len(matches))

    Rebulk().string("a", private=True).rules(See).matches("a" * n)
    ctx.eq(seen, [n], f"{n} private matches, seen by a rule")


def logging_rule(name, log, **members):
    def when(self, matches, context):
        log.append(name)
        return [name]

    return type(f"R{name}", (CustomRule,), {"when": when, "then": lambda self, matches, response, context: None, **members})


@scenario("C05", "C28")
def many_rules(ctx, n):
    log = []
    independent = [logging_rule(i, log) for i in range(n)]
    got = Rules(*independent).execute_all_rules(Matches(), {})
    ctx.eq(log, list(range(n)), f"{n} independent rules")
    ctx.eq([r for _, r in got], [[i] for i in range(n)], f"{n} independent rules: executed")
    for order in (1, -1):
        log.clear()
        chain = []
        for i in range(n):
            chain.append(logging_rule(i, log, dependency=chain[-1] if chain else None))
        Rules(*chain[::order]).execute_all_rules(Matches(), {})
        ctx.eq(log, list(range(n)), f"{n} rules, each depending on the one before, registered {order}")
        log.clear()
        Rules(*[logging_rule(i, log, priority=i - n // 2) for i in range(n)][::order]).execute_all_rules(Matches(), {})
        ctx.eq(log, list(range(n))[::-1], f"{n} priorities, registered {order}")
        log.clear()
        first = [logging_rule(i, log) for i in range(n)]
        last = logging_rule("last", log, dependency=tuple(first))
        rules = Rules(last, *first)
        rules.execute_all_rules(Matches(), {})
        ctx.eq(log, [*range(n), "last"], f"a rule depending on {n} others")
    cyclic = [logging_rule(i, log) for i in range(n)]
    for i in range(n):
        cyclic[i].dependency = cyclic[(i + 1) % n]
    if n > 1:
        ctx.raises(ValueError, lambda: Rules(*cyclic).execute_all_rules(Matches(), {}), f"a cycle of {n} rules")


@scenario("C06", most=513)
def many_matches(ctx, n):
    def fresh():
        ms = [Match(i, i + 1, name="a", tags=["t", "u"], input_string="x" * (n + 2)) for i in range(2 * n)]
        return Matches(ms), ms

    c, ms = fresh()
    RemoveMatch().then(c, ms[::2], {})
    same(ctx, list(c), ms[1::2], f"{n} of {2 * n} removed")
    c, ms = fresh()
    RenameMatch("b").then(c, ms[:n], {})
    ctx.eq((len(c), {id(m) for m in c.named("b")}, {id(m) for m in c.named("a")}), (2 * n, {id(m) for m in ms[:n]}, {id(m) for m in ms[n:]}), f"{n} of {2 * n} renamed")
    c, ms = fresh()
    AppendTags(["v"]).then(c, iter(ms[n:]), {})
    ctx.eq(({id(m) for m in c.tagged("v")}, len(c)), ({id(m) for m in ms[n:]}, 2 * n), f"{n} of {2 * n} tagged")
    RemoveTags(["t"]).then(c, ms[:n], {})
    ctx.eq({id(m) for m in c.tagged("t")}, {id(m) for m in ms[n:]}, f"tag removed from {n} of {2 * n}")
    c, ms = fresh()
    new = [Match(i, i + 2, input_string="x") for i in range(n)]
    AppendMatch("z").then(c, [*new, *new], {})
    same(ctx, list(c), ms + new, f"{n} appended to {2 * n}")
    tags = [f"t{i}" for i in range(n)]
    AppendTags(tags).then(c, ms[0], {})
    ctx.eq(ms[0].tags, ["t", "u", *tags], f"{n} tags")
    RemoveTags([*tags, "u"]).then(c, ms[0], {})
    ctx.eq((ms[0].tags, ms[1].tags), (["t"], ["t", "u"]), f"{n} tags removed")


@scenario("C07")
def many_calls(ctx, n):
    from . import configs

    name = sorted(configs.MENU)[n % len(configs.MENU)]
    bulk, _ = configs.MENU[name](configs.plain)
    texts, contexts = configs.STRINGS[name], configs.CONTEXTS
    for i in range(n):
        text, context = texts[(i * i) % len(texts)], contexts[i % len(contexts)]
        if i < n - 2:
            bulk.matches(text, copy.deepcopy(context))
        else:
            fresh, _ = configs.MENU[name](configs.plain)
            ctx.eq(configs.result_view(bulk.matches(text, copy.deepcopy(context))), configs.result_view(fresh.matches(text, copy.deepcopy(context))), f"{name}: call {i + 1}")


@scenario("C07", "C23", large=False, most=101)
def long_texts(ctx, n):
    bulk = Rebulk().string("ab", name="s").regex("b(?P<g>c)?", name="r", every=True).functional(lambda s: [(len(s) - 1, len(s))], name="f")
    bulk.chain(name="c").string("c").regex("-").repeater("*").close()
    first = None
    for text in ("abc-" * n, "ab", "abc-" * n):
        got = bulk.matches(text)
        rows = [(m.span, m.name, m.value, [c.span for c in m.children]) for m in got]
        for m in got:
            for x in (m, *m.children):
                ctx.ok(0 <= x.start < x.end <= len(text) and x.input_string == text and x.raw == text[x.start : x.end] and x.initiator in (m, m.initiator), lambda: f"{x!r} of {text!r}")
        ctx.ok(got.input_string == text, "input string")
        if text != "ab":
            first = first or rows
            ctx.eq(rows, first, f"{n} repetitions, called again")


# -- patterns ---------------------------------------------------------------------------------------------------------------------
@scenario("C09")
def occurrences(ctx, n):
    got = Rebulk(default_rules=False).string("ab", "ba", name="x").matches("ab" * n)
    ctx.eq(spans_of(got), [(2 * i, 2 * i + 2) for i in range(n)] + [(2 * i + 1, 2 * i + 3) for i in range(n - 1)], f"{n} occurrences")
    word = "".join("abc"[(i * i) % 3] for i in range(n)) + "d"
    text = f"{word}-{word}{word}.{word[1:]}"
    want, at = [], text.find(word)
    while at >= 0:
        want.append((at, at + n + 1))
        at = text.find(word, at + n + 1)
    for options, sub in (({}, word), ({"ignore_case": True}, word.upper())):
        ctx.eq(spans_of(Rebulk(default_rules=False).string(sub, **options).matches(text)), want, f"a string of {n + 1} characters {options}")
    strings = ["".join("ab"[i >> b & 1] for b in range(11)) for i in range(n)]
    ctx.eq([m.raw for m in Rebulk(default_rules=False).string(*strings).matches("-".join(strings[::-1]))], strings, f"{n} strings")
    ctx.eq(spans_of(Rebulk(default_rules=False).string("a", start=n, end=2 * n).matches("a" * 3 * n)), [(i, i + 1) for i in range(n, 2 * n)], f"window of {n}")


@scenario("C10", "C19")
def groups(ctx, n):
    text = "".join("abc"[i % 3] for i in range(n))
    expression = "".join(f"(?P<g{i}>{c})" if i % 2 else f"({c})" for i, c in enumerate(text))
    got = Rebulk(default_rules=False).regex(expression, name="p", children=True).matches(f"-{text}-")
    ctx.eq([(m.span, m.name) for m in got], [((i + 1, i + 2), f"g{i}" if i % 2 else "p") for i in range(n)], f"{n} groups")
    got = Rebulk(default_rules=False).regex("(a)|(?P<x>b)", name="p").matches("ab" * n)
    ctx.eq([(m.span, [(c.span, c.name) for c in m.children]) for m in got], [((i, i + 1), [((i, i + 1), "x" if i % 2 else "p")]) for i in range(2 * n)], f"{2 * n} matches")
    expressions = [f"{c}{{{k + 1}}}" for k in range(n) for c in "a"]
    got = Rebulk(default_rules=False).regex(*expressions).matches("a" * n)
    ctx.eq(spans_of(got), [m.span() for e in expressions for m in re.finditer(e, "a" * n)], f"{n} expressions")
    abbreviations = [(f"<{i}>", "abc"[i % 3]) for i in range(n)]
    ctx.eq(spans_of(Rebulk().regex("".join(k for k, _ in abbreviations), abbreviations=abbreviations).matches(text)), [(0, n)], f"{n} abbreviations")


@scenario("C19")
def many_captures(ctx, n):
    from .c19 import RX_PATTERN

    text = "".join("ab"[i % 2] for i in range(n))
    got = RX_PATTERN.RePattern("(?:(?P<x>a)|(?P<y>b))+", name="p").matches(text)
    ctx.eq([c.span for c in got[0].children], [(i, i + 1) for i in range(0, n, 2)] + [(i, i + 1) for i in range(1, n, 2)], f"{n} captures")
    got = RX_PATTERN.RePattern("(?:(?P<x>a)|(?P<y>b))+", name="p", repeated_captures=False).matches(text)
    ctx.eq([c.span for c in got[0].children], [m.span(g) for m in re.finditer("(?:(?P<x>a)|(?P<y>b))+", text) for g in (1, 2) if m.span(g)[0] >= 0], f"{n} captures, the last ones")


@scenario("C11")
def options_of_one_group(ctx, n):
    text = "".join("abc"[i % 3] for i in range(n))
    expression = "".join(f"(?P<g{i}>{c})" for i, c in enumerate(text))
    for i in {0, n // 2, n - 1}:
        make = lambda **options: [(m.name, m.value, bool(m.private)) for m in Rebulk(default_rules=False).regex(expression, children=True, **options).matches(text)]
        plain = [(f"g{k}", c, False) for k, c in enumerate(text)]
        changed = lambda new: [new if k == i else row for k, row in enumerate(plain)]
        ctx.eq(make(value={f"g{i}": "V"}), changed((f"g{i}", "V", False)), f"value of group {i} of {n}")
        ctx.eq(make(formatter={f"g{i}": str.upper}), changed((f"g{i}", text[i].upper(), False)), f"formatter of group {i} of {n}")
        ctx.eq(make(validator={f"g{i}": lambda m: False}), [], f"validator of group {i} of {n}")
        ctx.eq(make(validator={f"g{i}": lambda m: True, None: lambda m: m.name != f"g{i}"}), plain, f"validators of {n} groups")
        ctx.eq(make(private_names=[f"g{i}"]), changed((f"g{i}", text[i], True)), f"private group {i} of {n}")
        ctx.eq(make(ignore_names=[f"g{i}"]), [r for k, r in enumerate(plain) if k != i], f"ignored group {i} of {n}")
        ctx.eq(make(formatter={f"g{k}": (lambda k: lambda s: k)(k) for k in range(n)}), [(f"g{k}", k, False) for k in range(n)], f"{n} formatters")
    calls = []
    got = Rebulk(default_rules=False).string("a", validator=lambda m: calls.append(m.start) or m.start != n - 1, pre_match_processor=lambda m: None, post_processor=lambda ms, p: ms[::-1]).matches("a" * (n + 1))
    ctx.eq((spans_of(got), calls), ([(i, i + 1) for i in [*range(n - 1), n]][::-1], [*range(n + 1)]), f"{n + 1} matches")


@scenario("C12")
def many_returned(ctx, n):
    items = [(i, i + 1, {"name": f"n{i}"}) if i % 3 == 0 else [i, i + 1] if i % 3 == 1 else {"start": i, "end": i + 1, "tags": [f"t{i}"]} for i in range(n)]
    want = [((i, i + 1), f"n{i}" if i % 3 == 0 else "n", [f"t{i}"] if i % 3 == 2 else ["t"]) for i in range(n)]
    for how in (list, tuple, iter, lambda items: (x for x in items)):
        got = Rebulk(default_rules=False).functional(lambda s: how(items), name="n", tags=["t"]).matches("x" * n)
        ctx.eq([(m.span, m.name, m.tags) for m in got], want, f"{n} items")
    got = Rebulk(default_rules=False).functional(*[(lambda i: lambda s: (i, i + 1))(i) for i in range(n)]).matches("x" * n)
    ctx.eq(spans_of(got), [(i, i + 1) for i in range(n)], f"{n} functions")


@scenario("C13", most=129)
def repetitions(ctx, n):
    def chain(*parts, **options):
        builder = Rebulk(default_rules=False).chain(**options)
        for kind, pattern, repeater, hidden in parts:
            part = getattr(builder, kind)(pattern)
            if repeater:
                part.repeater(repeater)
            if hidden:
                part.hidden()
        return builder.close()

    show = lambda got: [(m.span, spans_of(m.children)) for m in got]
    ones = lambda a, b: [(i, i + 1) for i in range(a, b)]
    ctx.eq(show(chain(("string", "a", "+", False)).matches("a" * n)), [((0, n), ones(0, n))], f"{n} repetitions")
    ctx.eq(show(chain(("string", "a", n, False)).matches("a" * (2 * n) + "b")), [((0, n), ones(0, n)), ((n, 2 * n), ones(n, 2 * n))], f"exactly {n} repetitions, twice")
    ctx.eq(show(chain(("string", "x", None, False), ("string", "a", f"{{{n},{n + 2}}}", False)).matches("x" + "a" * (n - 1) + "x" + "a" * (n + 3))),
           [((n, 2 * n + 3), ones(n, 2 * n + 3))], f"{n} to {n + 2} repetitions")
    ctx.eq(show(chain(("string", "x", None, False), ("string", "a", f"{{,{n}}}", True), ("string", "b", "?", False)).matches("x" + "a" * n + "b" + "x" + "a" * (n + 1) + "b")),
           [((0, n + 2), [(0, 1), (n + 1, n + 2)]), ((n + 2, n + 3), [(n + 2, n + 3)])], f"up to {n} hidden repetitions")
    text = "".join("abc"[i % 3] for i in range(n))
    ctx.eq(show(chain(*[("string", c, None, i % 4 == 3) for i, c in enumerate(text)]).matches(f"-{text}{text}-")),
           [((s, s + max(i + 1 for i in range(n) if i % 4 != 3)), [(s + i, s + i + 1) for i in range(n) if i % 4 != 3]) for s in (1, n + 1)], f"{n} parts")
    ctx.eq(show(chain(("string", "a", None, False), ("regex", "(b)", "*", False)).matches("ab-" * n)),
           [((3 * i, 3 * i + 2), [(3 * i, 3 * i + 1), (3 * i + 1, 3 * i + 2), (3 * i + 1, 3 * i + 2)]) for i in range(n)], f"{n} chain matches")
    ctx.eq(show(chain(("string", "a", None, False), ("string", "b", None, False)).matches("a" * n + "b")), [((n - 1, n + 1), [(n - 1, n), (n, n + 1)])], f"{n - 1} failed attempts")
    ctx.eq(show(chain(("string", "a", None, False), ("string", "b", "*", False), validator=lambda m: len(m) <= 2).matches("a" + "b" * n)), [((0, 2), [(0, 1), (1, 2)])], f"{n} repetitions, all but one dropped")
    ctx.eq(show(chain(("string", "a", "+", False), chain_breaker=lambda ms: len(ms) > n // 2 + 1).matches("a" * n))[0][1][:1], [(0, 1)], "chain breaker")


@scenario("C13")
def far_chains(ctx, n):
    bulk = Rebulk(default_rules=False).chain().string("a").regex("(b)").repeater("*").close()
    got = bulk.matches("-" * n + "ab" + "-" * n + "abb" + "-" * n + "a")
    want = [(n, n + 2), (2 * n + 2, 2 * n + 5), (3 * n + 5, 3 * n + 6)]
    ctx.eq(spans_of(got), want, f"three chains {n} characters apart")
    ctx.eq([spans_of(m.children)[0] for m in got], [(a, a + 1) for a, _ in want], "their first parts")


# -- builders, keys, conversions ------------------------------------------------------------------------------------------------------
@scenario("C14")
def many_defaults(ctx, n):
    bulk = Rebulk(default_rules=False)
    for i in range(n):
        bulk.defaults(name=f"n{i}", tags=[f"t{i}"]).string_defaults(value={f"n{i}": i + 1})
        if i < n - 1:
            bulk.regex("a")
    bulk.string("a").string("a", name="own", tags=["own"]).regex("b")
    got = bulk.matches("ab")
    want = [(f"n{i}", [f"t{i}"], "a") for i in range(n - 1)] + [(f"n{n - 1}", [f"t{n - 1}"], n), ("own", [f"t{n - 1}", "own"], "a"), (f"n{n - 1}", [f"t{n - 1}"], "b")]
    ctx.eq([(m.name, m.tags, m.value) for m in got], want, f"defaults set {n} times")
    tags = [f"t{i}" for i in range(n)]
    got = Rebulk().defaults(tags=tags).string_defaults(tags=tags).string("a", tags=tags).matches("a")
    ctx.eq(got[0].tags, tags * 3, f"lists of {n}")
    builder = Rebulk(default_rules=False).defaults(name="d").chain(children=True)
    for i in range(min(n, 60)):
        builder = builder.chain(children=True)
        builder.string("a")
    ctx.eq([m.name for m in builder.close().matches("a" * min(n, 60))][:1], ["d"], f"{n} chains deep")


@scenario("C15")
def many_keys(ctx, n):
    keys = [Key(f"k{i}", int, formatter=(lambda i: lambda s: i)(i)) for i in range(n)]
    text = "".join("abc"[i % 3] for i in range(n))
    expression = "".join(f"(?P<k{i}>{c})" for i, c in enumerate(text))
    for how in ("declared", "given"):
        bulk = Rebulk()
        if how == "declared":
            bulk.declare_keys(*keys).regex(expression, children=True)
        else:
            bulk.regex(expression, key=keys, children=True)
        got = bulk.matches(text)
        ctx.eq([(m.name, m.value) for m in got], [(f"k{i}", i) for i in range(n)], f"{n} keys {how}")
        ctx.eq([got[k] for k in keys], list(range(n)), f"{n} keys {how}: access")
        ctx.eq([got.all(k) for k in keys], [[i] for i in range(n)], f"{n} keys {how}: all")
    bulk = Rebulk()
    for i in range(n):
        bulk.rebulk(Rebulk().declare_keys(keys[i]))
    ctx.eq(sorted(bulk.matches("").declared_keys), sorted(k.name for k in keys), f"keys of {n} children")
    ctx.eq(bulk.check_keys(), sorted(k.name for k in keys), f"{n} unused keys")
    wide = Key("x", int)
    ctx.eq(Rebulk().string("1", key=wide).matches("1" * n).all(wide), [1] * n, f"{n} values")


@scenario("C15")
def checked_keys(ctx, n):
    from rebulk import debug

    debug.CHECK_DECLARED_KEYS = True
    try:
        for wrong in (None, 0, n // 2, n - 1):
            bulk = Rebulk().declare_keys(Key("x", int)).functional(lambda s: [(i, i + 1) for i in range(n)], name="x", formatter=lambda s: s if wrong is not None and s == "w" else 1)
            text = "".join("w" if i == wrong else "-" for i in range(n))
            if wrong is None:
                ctx.eq([m.value for m in bulk.matches(text)], [1] * n, f"{n} values of the declared type")
            else:
                ctx.raises(TypeError, lambda: bulk.matches(text), f"{n} values, the one at {wrong} of another type")
    finally:
        debug.CHECK_DECLARED_KEYS = False


@scenario("C16")
def many_values(ctx, n):
    text = "".join("abc"[i % 3] for i in range(n))
    c = Matches([Match(i, i + 1, name="x", value=i + 1, input_string=text) for i in range(n)][::-1] + [Match(0, 1, name=f"n{i}", input_string=text) for i in range(n)], text)
    d = c.to_dict()
    numbers = list(range(1, n + 1))
    ctx.eq((d["x"], d.values_list["x"], len(d.matches["x"])), (numbers if n > 1 else 1, numbers, n), f"{n} values")
    ctx.eq({k: v for k, v in d.items() if k != "x"}, {f"n{i}": "a" for i in range(n)}, f"{n} names")
    ctx.eq((c.to_dict(first_value=True)["x"], c.to_dict(enforce_list=True)["x"]), (1, numbers), f"{n} values, first and as list")
    ctx.eq([m.value for m in c.to_dict(details=True, enforce_list=True)["x"]], numbers, f"{n} values, matches")
    model = dataclasses.make_dataclass("Model", [("x", list[int]), *[(f"n{i}", str) for i in range(n)]])
    ctx.eq(dataclasses.asdict(c.to(model)), {"x": numbers[::-1], **{f"n{i}": "a" for i in range(n)}}, f"a model of {n} fields")
    ctx.eq(c.to(list[Any]), numbers[::-1] + ["a"] * n, f"a list of {2 * n}")
    same_value = Rebulk().string("a", name="x").matches("a" * n).to_dict()
    ctx.eq((same_value["x"], len(same_value.matches["x"])), ("a", n), f"{n} equal values")


@scenario("C17")
def many_pieces(ctx, n):
    text = "-" + "ab-" * n
    m = Match(1, len(text), name="x", tags=["t"], input_string=text)
    pieces = [(3 * i + 1, 3 * i + 3) for i in range(n)]
    crops = [(3 * i + 3, 3 * i + 4) for i in range(n)]
    for order in (crops, crops[::-1], crops[::2] + crops[1::2]):
        got = m.crop(order if n > 1 else order[0])
        ctx.eq(sorted(spans_of(got)), pieces, f"{n} crops")
    ctx.eq(spans_of(m.split("-")), pieces, f"{n} pieces")
    ctx.ok(all(p.raw == "ab" and p.name == "x" and p.tags == ["t"] for p in [*m.split("-"), *m.crop(Match(0, 1))[:0]]), f"{n} pieces")
    ctx.eq((m.span, spans_of(Match(0, n, input_string="-" * n).split("-")), spans_of(Match(0, n, input_string="a" * n).split("-"))), ((1, len(text)), [], [(0, n)]), "one run, no run")


@scenario("C23")
def many_related(ctx, n):
    from .c23 import check_result

    text = "-" + "".join("abc"[i % 3] for i in range(n)) + "-"
    expression = "".join(f"(?P<g{i}>{c})" if i % 2 else f"({c})" for i, c in enumerate(text[1:-1]))
    for options in ({}, {"children": True}, {"every": True}, {"private_parent": True, "children": True}, {"marker": True, "every": True}):
        got = Rebulk(default_rules=False).regex(expression, name="p", **options).matches(text)
        check_result(ctx, got, text, lambda: f"{n} groups {options}")
        got = Rebulk(default_rules=False).chain(name="p", **options).regex("-").regex("(a)(?P<b>b)?|(c)").repeater("+").regex("-").close().matches(text)
        check_result(ctx, got, text, lambda: f"a chain of {n} groups {options}")


@scenario("C18", "C23")
def many_children(ctx, n):
    parent = Rebulk(default_rules=False)
    children = [Rebulk(disabled=i % 3 == 1, default_rules=False).string("a", name=f"c{i}").string("b", name=f"d{i}", disabled=i % 2 == 0) for i in range(n)]
    parent.rebulk(*children[: n // 2]).string("a", name="own").rebulk(*children[n // 2 :])
    want = [("own", (0, 1))] + [x for i in range(n) if i % 3 != 1 for x in [(f"c{i}", (0, 1)), *([] if i % 2 == 0 else [(f"d{i}", (1, 2))])]]
    for _ in range(2):
        ctx.eq([(m.name, m.span) for m in parent.matches("ab")], want, f"{n} children")
    log = []
    bulk = Rebulk()
    for i in range(n):
        bulk.rebulk(Rebulk(disabled=lambda context, i=i: i == context["off"]).rules(logging_rule(i, log)))
    for off in (0, n // 2, n - 1, n):
        log.clear()
        bulk.matches("", {"off": off})
        ctx.eq(log, [i for i in range(n) if i != off], f"rules of {n} children, {off} disabled")
    wide = Rebulk(default_rules=False).string(*["a"] * n)
    ctx.eq(len(wide.matches("a")), n, f"{n} strings")


@scenario("C18", "C15", most=513)
def deep_children(ctx, n):
    """Children of children, n deep: of every second one the pattern, keys and rules are used although nothing of the others is."""
    log = []

    def tree(disabled):
        bulk = None
        for i in range(n):
            outer = Rebulk(disabled=lambda context, i=i: i == disabled, default_rules=False)
            outer.declare_keys(Key(f"k{i}", int, formatter=lambda s, i=i: i)).string("a", name=f"k{i}").rules(logging_rule(i, log))
            bulk = outer.rebulk(bulk) if bulk else outer
        return bulk

    for disabled in {None, 0, n // 2, n - 1}:
        log.clear()
        got = tree(disabled).matches("a")
        enabled = [i for i in range(n) if disabled is None or i > disabled][::-1]
        ctx.eq([(m.name, m.value) for m in got], [(f"k{i}", i) for i in enabled], f"{n} deep, {disabled} disabled")
        ctx.eq(log, enabled, f"{n} deep, {disabled} disabled: rules")


@scenario("C20")
def graphs(ctx, n):
    chain = {i: {i - 1} if i else set() for i in range(n)}
    for order in (1, -1):
        ctx.eq(list(toposort({k: chain[k] for k in list(chain)[::order]})), [{i} for i in range(n)], f"a path of {n}")
    ctx.eq(list(toposort({n: set(range(n))})), [set(range(n)), {n}], f"{n} dependencies")
    ctx.eq(list(toposort({i: {n} for i in range(n)})), [{n}, set(range(n))], f"{n} items on one")
    ctx.eq(list(toposort({i: {i} for i in range(n)})), [set(range(n))], f"{n} items on themselves")
    ctx.eq(toposort_flatten({i: set() for i in range(n)}), list(range(n)), f"{n} items, flat")
    ctx.eq(toposort_flatten({i: {j for j in range(i)} for i in range(min(n, 65))}), list(range(min(n, 65))), "all on all before")
    if n > 1:
        ctx.raises(ValueError, lambda: list(toposort({i: {(i + 1) % n} for i in range(n)})), f"a cycle of {n}")


@scenario("C21")
def many_names(ctx, n):
    bulk = Rebulk()
    for i in range(n):
        bulk.string("a", name=f"s{i}").regex(f"(?P<g{i}>b)", children=True)
    bulk.string(*[f"v{i}" for i in range(n)], name="many")
    bulk.regex("".join(f"(?P<h{i}>a)" for i in range(n)), children=True)
    found = introspect(bulk).properties
    ctx.eq(set(found), {f"{k}{i}" for k in "sgh" for i in range(n)} | {"many"}, f"{n} names")
    ctx.eq(list(found["many"]), [f"v{i}" for i in range(n)], f"{n} values")
    bulk.declare_keys(*[Key(f"{k}{i}", str) for k in "sghz" for i in range(n)])
    ctx.eq(bulk.check_keys(), sorted(f"z{i}" for i in range(n)), f"{n} keys that are never produced")
    ctx.eq(bulk.check_keys(allowed_unused=[f"z{i}" for i in range(n)]), [], f"{n} allowed")


@scenario("C22", large=False, most=101)
def deep_trees(ctx, n):
    def tree(last):
        m = Match(0, 1, name="m0", input_string="x")
        for i in range(1, n + 1):
            m = Match(0, 1, name=last if i == 1 and last else f"m{i}", parent=m, input_string="x")
        return m

    a, b, c = tree(None), tree(None), tree("other")
    ctx.eq((a == b, a != b, hash(a) == hash(b), a == c, a != c), (True, False, True, False, True), f"{n} parents")
    ctx.eq(a.initiator.name, "m0", f"{n} parents: initiator")
    top = Match(0, n, name="top", input_string="x" * n)
    for i in range(n):
        top.children.append(Match(i, i + 1, name=f"c{i}", parent=top, tags=[f"t{i}"]))
    ctx.eq((top.names, [top.named(f"c{i}") for i in range(n)]), ({f"c{i}" for i in range(n)}, [True] * n), f"{n} children")
    ctx.eq(top.named("top", *[f"c{i}" for i in range(n)][-1:]), True, "named")
    spans = [(i % 7, 7 + (i * 3) % 11) for i in range(n)]
    ctx.eq(spans_of(sorted(Match(*s) for s in spans)), sorted(spans), f"{n} sorted")
    raw = Match(0, n, input_string="ab" * n)
    ctx.eq((len(raw), raw.raw, raw.value), (n, ("ab" * n)[:n], ("ab" * n)[:n]), f"{n} characters")


@scenario("C24", large=False, most=40)
def nested_calls(ctx, n):
    def function(string, context):
        if context["left"]:
            inner.append([m.value for m in bulk.matches(string + "x", {"left": context["left"] - 1})])
        return (0, len(string))

    inner: list = []
    bulk = Rebulk().functional(function, name="f").string("x", private=True)
    ctx.eq([m.value for m in bulk.matches("a", {"left": n})], ["a"], f"{n} calls deep")
    ctx.eq(inner, [["a" + "x" * i] for i in range(n, 0, -1)], f"{n} calls deep: inner ones")

    def broken(string):
        raise KeyError(string)

    once = [broken] * n
    again = Rebulk().functional(lambda s: once.pop()(s) if once else (0, 1))
    for _ in range(n):
        ctx.raises(KeyError, lambda: again.matches("ab"), f"failing {n} times")
    ctx.eq(spans_of(again.matches("ab")), [(0, 1)], f"after {n} failures")


@scenario("C25")
def many_characters(ctx, n):
    chars = "".join(chr(33 + i) for i in range(n))
    for i in {0, n // 2, n - 1, n}:
        char, inside = chr(33 + i), i < n
        text = f"x{char}m{char}x"
        m = Match(2, 3, input_string=text)
        ctx.eq([bool(f(cs, m)) for f in (chars_before, chars_after, chars_surround) for cs in (chars, list(chars), set(chars))], [inside] * 9, f"{n} characters, the one at {i}")
        ctx.eq(validators(*[(lambda k: lambda m: k != i)(k) for k in range(n)])(m), not inside, f"{n} validators, {i} rejects")
    ctx.eq(formatters(*[(lambda k: lambda s: [*s, k])(k) for k in range(n)])([]), list(range(n)), f"{n} formatters")
    long = "x" * n + "-m-" + "y" * n
    ctx.eq((chars_surround("-", Match(n + 1, n + 2, input_string=long)), chars_before("-", Match(n, n + 1, input_string=long)), chars_after("-", Match(n, n + 2, input_string=long))), (True, False, True), f"at {n}")


@scenario("C26")
def many_rules_in_stages(ctx, n):
    log = []

    def see(i):
        def when(self, matches, context):
            log.append((i, len(matches)))
            return [i]

        def then(self, matches, response, context):
            matches.append(Match(4 + i, 5 + i, name=f"r{i}", private=i % 2 == 1, input_string=text))

        return type(f"See{i}", (CustomRule,), {"when": when, "then": then, "priority": n - 2 * i})

    text = "abc-" + "x" * n
    got = Rebulk().string("ab").string("abc").string("b", private=True).rules(*[see(i) for i in range(n)]).matches(text)
    ctx.eq(log, [(i, 2 + i) for i in range(n)], f"{n} rules between the two steps")
    ctx.eq([m.span for m in got], [(0, 3)] + [(4 + i, 5 + i) for i in range(0, n, 2)], f"{n} rules adding matches")


@scenario("C27", large=False, most=101)
def debugged(ctx, n):
    import logging

    from .c27 import Mode, represent

    def bulk():
        b = Rebulk().string("ab", name="s" * n, tags=["t"] * n).regex("b(?P<g>c)?" + "(?:)" * n, name="r", every=True).functional(lambda s: (0, len(s)), name="f", private=True)
        b.chain(name="c").string("c").regex("-").repeater("*").close().string(*["zz"] * n)
        return b.rules(*[logging_rule(i, log) for i in range(min(n, 12))])

    rows = lambda got: [(m.span, m.name, m.value, m.tags, [c.span for c in m.children]) for m in got]
    log, text = [], "abc-" * n
    want = rows(bulk().matches(text))
    for flag, level in ((True, None), (False, 1), (True, logging.DEBUG)):
        with Mode(flag, level) as recorder:
            b = bulk()
            got = b.matches(text)
            represent(b, got)
        ctx.eq((rows(got), recorder.failed), (want, []), f"{n} repetitions with debug {flag} and log level {level}")


@scenario("C29", large=False, most=101)
def many_times(ctx, n):
    def bulk():
        b = Rebulk().string("ab", name="s").regex("(?P<g>b)c", name="r", every=True).string("a", name="p", private=True).string("ca", marker=True)
        b.chain(name="c").regex("a(b)?").string("c").repeater("*").close()
        return b

    alone = bulk().matches("abcca")
    rows = lambda ms, shift: [(m.name, m.start - shift, m.end - shift, m.value) for m in ms]
    got = bulk().matches("abcca;" * n)
    for which, one in ((list(got), list(alone)), (list(got.markers), list(alone.markers))):
        times = [[] for _ in range(n)]
        for m in which:
            times[m.start // 6].append(m)
        for i in range(n):
            ctx.eq(sorted(map(repr, rows(times[i], 6 * i))), sorted(map(repr, rows(one, 0))), f"{n} times one text: time {i + 1}")
    more = bulk()
    for i in range(n):
        more.string(f"z{i}", name="s").regex(f"(?P<z>y{i})", children=True)
    ctx.eq(rows(more.matches("abcca"), 0), rows(alone, 0), f"{2 * n} other patterns")
    before = Rebulk().rebulk(*[Rebulk().string(f"z{i}") for i in range(n)], bulk())
    ctx.eq(rows(before.matches("abcca"), 0), rows(alone, 0), f"{n} other children")
