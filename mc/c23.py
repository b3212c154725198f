"""C23: everything returned is well formed, for pairs of patterns from a menu covering every kind and option family, on every short text."""
from __future__ import annotations

import itertools

from rebulk import Rebulk
from rebulk.match import Match
from rebulk.rules import AppendMatch, CustomRule, RemoveMatch, RenameMatch, Rule

from .c11 import OPTIONS
from .core import Family
from .lookups import coherent
from .refpattern import resolve
from .sizes import sizes

ASSUMPTIONS = ["functional patterns and rules return spans inside the text"]


def spans_of(ch):
    def fn(string):
        return [(i, i + 1) for i, c in enumerate(string) if c == ch]

    return fn


def dicts(string):
    return [dict(start=i, end=min(len(string), i + 2), name="fd", tags=["fn"]) for i, c in enumerate(string) if c == "b"]


def generator(string, context):
    for i in range(len(string) - 1, -1, -1):
        yield i, i + (string[i] == "c"), {"name": "fg"}


def even(m):
    return m.start % 2 == 0


def up(s):
    return s.upper()


# label -> function adding it to a Rebulk
MENU = {
    "s": lambda b: b.string("a", name="s"),
    "s2": lambda b: b.string("ab", "b", name="s2", tags=["t"]),
    "s_overlap": lambda b: b.string("aa", "bb", "aba"),
    "s_case": lambda b: b.string("AB", ignore_case=True, value="V"),
    "s_bounds": lambda b: b.string("a", start=1, end=-1),
    "s_private": lambda b: b.string("b", private=True, name="p"),
    "s_marker": lambda b: b.string("bc", marker=True, name="mk"),
    "s_valid": lambda b: b.string("a", "c", validator=even, formatter=up),
    "r": lambda b: b.regex("a+b?", name="r"),
    "r_groups": lambda b: b.regex("(?P<x>a)(?P<y>b)?(c)?", name="rg"),
    "r_children": lambda b: b.regex("(?P<x>a)|(?P<y>b(c))", children=True),
    "r_every": lambda b: b.regex("(?P<x>a(b))", every=True, private_children=True),
    "r_privpar": lambda b: b.regex("(a)(?P<y>[bc])", children=True, private_parent=True, tags=["t"]),
    "r_marker": lambda b: b.regex("(?P<x>b)(?P<y>c)", marker=True, every=True),
    "r_empty": lambda b: b.regex("a*?", "(b*)", "(?=c)"),
    "r_named": lambda b: b.regex("(?P<x>a)(?P<y>b)", every=True, private_names=["x"], ignore_names=["y"]),
    "r_post": lambda b: b.regex("[abc]", post_processor=lambda ms, p: list(ms)[::2]),
    "r_pre": lambda b: b.regex("(a)(b)", pre_match_processor=lambda m: False if m.start == 0 else None, validate_all=True, validator={"__children__": even}),
    "r_abbr": lambda b: b.regex("a-b", abbreviations=[("-", "[ab]?")]),
    "f": lambda b: b.functional(spans_of("b"), name="f"),
    "f_dict": lambda b: b.functional(dicts),
    "f_gen": lambda b: b.functional(generator, spans_of("a"), validator=even),
    "c": lambda b: b.chain(name="c").string("a").string("b").repeater("?").close(),
    "c_star": lambda b: b.chain(name="cs").regex("(?P<x>a)").repeater("+").regex("(?P<y>b)(c)?").repeater("*").close(),
    "c_children": lambda b: b.chain(children=True).regex("(?P<x>b)").string("c", name="z").repeater("?").close(),
    "c_hidden": lambda b: b.chain().string("a").hidden().regex("(?P<x>[ab])", children=True).repeater("{1,2}").close(),
    "c_nested": lambda b: b.chain(name="cn").string("a").chain().regex("(?P<y>b)").string("c").close(),
    "c_valid": lambda b: b.chain(validator=lambda m: len(m) < 3, every=True).string("a").string("b").repeater("*").close(),
    "c_breaker": lambda b: b.chain(chain_breaker=lambda ms: len(ms) > 2).regex("[ab]").repeater("+").close(),
    "c_func": lambda b: b.chain(marker=True).functional(spans_of("a")).string("b", "c").close(),
}


def well_formed(ctx, m, text, what, top=None):
    ctx.ok(0 <= m.start < m.end <= len(text), lambda: what() + f": span {m.span}")
    ctx.eq(m.input_string, text, lambda: what() + f": input string of {m!r}")
    ctx.eq(m.raw, text[m.start:m.end], lambda: what() + f": raw of {m!r}")
    ctx.eq(len({id(c) for c in m.children}), len(m.children), lambda: what() + f": a child of {m!r} is held twice")
    for c in m.children:
        p, hops = c, 0
        while p is not m and p is not None and hops < 9:
            p, hops = p.parent, hops + 1
        ctx.ok(p is m, lambda: what() + f": the parents of child {c!r} do not lead to {m!r}")
        well_formed(ctx, c, text, what)


def check_result(ctx, got, text, what):
    ctx.eq((got.input_string, got.markers.input_string), (text, text), lambda: what() + ": input string of the result")
    for m in got:
        ctx.ok(not m.marker, what)
        well_formed(ctx, m, text, what)
    for m in got.markers:
        ctx.ok(m.marker, what)
        well_formed(ctx, m, text, what)


def brief(m):
    return m.span, m.name, bool(m.private), bool(m.marker), list(m.tags), m.value, m.initiator.span, [brief(c) for c in m.children]


_single = {}


def single(label, text):
    key = (label, text)
    if key not in _single:
        bulk = Rebulk(default_rules=False)
        MENU[label](bulk)
        got = bulk.matches(text)
        _single[key] = [brief(m) for m in got], [brief(m) for m in got.markers]
        if len(_single) > 200000:
            _single.clear()
            return single(label, text)
    return _single[key]


def run(ctx, case):
    labels, texts = case
    what = None
    for text in texts:
        what = lambda: f"{labels} on {text!r}"
        bulk, ruled = Rebulk(default_rules=False), Rebulk()
        for label in labels:
            MENU[label](bulk)
            MENU[label](ruled)
        got = bulk.matches(text)
        ctx.ran(2)
        check_result(ctx, got, text, what)
        # registration order, then the order in which a pattern finds them
        ctx.eq([brief(m) for m in got], [x for l in labels for x in single(l, text)[0]], lambda: what() + ": matches")
        ctx.eq([brief(m) for m in got.markers], [x for l in labels for x in single(l, text)[1]], lambda: what() + ": markers")
        for l in labels:
            if l[0] in "sc" or l == "r":
                found = [x[0] for x in single(l, text)[0] if not x[6] != x[0]]
                if l not in ("s2", "s_overlap", "s_valid", "c_valid"):
                    ctx.ok(found == sorted(found), lambda: what() + f": occurrences of {l} in order: {found}")
        # with the default rules: a subsequence of it
        final = ruled.matches(text)
        check_result(ctx, final, text, what)
        rest = iter([brief(m) for m in got])
        ctx.ok(all(any(brief(m) == x for x in rest) for m in final), lambda: what() + ": order after the default rules")
        ctx.eq([brief(m) for m in final.markers], [brief(m) for m in got.markers], lambda: what() + ": markers after the default rules")
        coherent(ctx, final, ["x", "y", "s", "r"], ["t"], len(text), what)
        ctx.state((labels, [m.span for m in final]))


def texts_up_to(n, alphabet="abc"):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def cases(tier):
    long = texts_up_to(6 if tier == "thorough" else 5)
    short = texts_up_to(4 if tier == "thorough" else 3)
    for label in MENU:
        for i in range(0, len(long), 64):
            yield (label,), tuple(long[i:i + 64])
    for one in MENU:
        for two in MENU:
            yield (one, two), tuple(short)
    few = ["abc", "aabc", "bcab", "ababc"]
    for three in itertools.product(MENU, repeat=3) if tier == "thorough" else itertools.combinations(MENU, 3):
        yield three, tuple(few if tier == "thorough" else few[1:3])


# -- rules --------------------------------------------------------------------------------------
class Rename(Rule):
    consequence = RenameMatch("x")

    def when(self, matches, context):
        return matches.named("s") + matches.named("r")


class Append(Rule):
    consequence = AppendMatch("y")

    def when(self, matches, context):
        return matches.holes(0, len(matches.input_string))


class Crop(Rule):
    consequence = [RemoveMatch, AppendMatch]

    def when(self, matches, context):
        out = [m for m in matches if len(m) > 1 and not m.private]
        return (out, [p for m in out for p in m.crop((m.start + 1, m.start + 1))]) if out else None


class Split(CustomRule):
    priority = 100

    def when(self, matches, context):
        return [m for m in matches if "b" in m.raw and len(m) > 1]

    def then(self, matches, when_response, context):
        for m in when_response:
            matches.remove(m)
            matches.extend(m.split("b"))


RULES = {"rename": Rename, "append": Append, "crop": Crop, "split": Split}


def rules_run(ctx, case):
    labels, rules, texts = case
    for text in texts:
        what = lambda: f"{labels} with rules {rules} on {text!r}"
        bulk = Rebulk()
        for label in labels:
            MENU[label](bulk)
        for r in rules:
            bulk.rules(RULES[r])
        got = bulk.matches(text)
        ctx.ran()
        ctx.eq(got.input_string, text, what)
        for m in list(got) + list(got.markers):
            ctx.ok(0 <= m.start < m.end <= len(text), lambda: what() + f": {m!r}")
            ctx.eq((m.input_string, m.raw), (text, text[m.start:m.end]), what)
        coherent(ctx, got, ["x", "y", "s", "r"], ["t"], len(text), what)
        ctx.state((labels, rules, [m.span for m in got]))


def rules_cases(tier):
    texts = ["abc", "aab", "cbaa", "b"] if tier != "thorough" else texts_up_to(4)
    for k in (1, 2):
        for rules in itertools.permutations(RULES, k):
            for one in MENU:
                yield (one,), rules, tuple(texts)
            for pair in itertools.product(("s", "s2", "r_groups", "r_children", "f_gen", "c_star", "s_private"), repeat=2):
                yield pair, rules, tuple(texts)


# -- options on parts of chains -----------------------------------------------------------------
PARTS = [
    lambda b, o1, o2: b.string("a", **o1) and b.regex("(?P<x>b)(?P<y>c)?", **o2).repeater("*"),
    lambda b, o1, o2: b.regex("(?P<x>a)(b)?", **o1).repeater("+") and b.functional(lambda s: [(0, 1)] if s[:1] == "c" else None, **o2).repeater("?"),
    lambda b, o1, o2: b.string("a", **o1) and b.chain(**o2).regex("(?P<y>b)").string("c", name="x"),
    lambda b, o1, o2: b.regex("(?P<x>[ab])", **o1).hidden() and b.string("b", "c", **o2).repeater("?"),
]


def parts_run(ctx, case):
    base, options = case
    first, second, whole = [{k: resolve(v) for k, v in o} for o in options]
    bulk = Rebulk(default_rules=False)
    PARTS[base](bulk.chain(**whole), first, second)
    for text in ("abcbab", "aabc", "bcab", "abcc"):
        what = lambda: f"chain {base} with {options} on {text!r}"
        got = bulk.matches(text)
        ctx.ran()
        check_result(ctx, got, text, what)
        ctx.state((base, [(m.span, m.name, len(m.children)) for m in got]))


def parts_cases(tier):
    options = [()] + [((o, a),) for o in OPTIONS for a in OPTIONS[o] if a != "@o_or"]
    for base in range(len(PARTS)):
        for three in itertools.product(options, repeat=3):
            if tier == "thorough" or not all(three):
                yield base, three


def families():
    return [
        Family("menu", cases, run, "every pattern of a menu of 30 on every text over 3 letters up to 5 (thorough 6), every pair on texts up to 3 (4), every three of them on 2 (4) texts; with and without the default rules"),
        Family("rules", rules_cases, rules_run, "menu patterns with one or two custom rules renaming, appending holes, cropping and splitting"),
        Family("parts", parts_cases, parts_run, "4 chains with an option on up to two (thorough three) of: first part, second part, whole chain; every alternative of every option"),
        sizes("C23"),
    ]
