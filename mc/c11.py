"""C11: every combination of few non-default pattern options produces exactly the documented matches (deviation-bounded enumeration)."""
from __future__ import annotations

import itertools

from rebulk import Rebulk
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern

from .c13 import add, decode
from .core import Family
from .refpattern import process, resolve, view
from .sizes import sizes

ASSUMPTIONS = [
    "deviation = one option set to a non-default alternative; literal values and functions come from small tables; falsy literal values are outside the property (a falsy value is no value)",
]

OPTIONS = {
    "name": ["n", "x"],
    "tags": [["t1", "t2"]],
    "formatter": ["@up", {"x": "@up"}, {"__children__": "@wrap"}, {"__parent__": "@len"}, {None: "@wrap"}, {"x": "@up", "n": "@len", "__children__": "@wrap", None: "@len"}, {"__parent__": "@up", "y": "@len"}, "@empty", {"x": None, None: "@up"}, {"__children__": None, "n": None, None: "@wrap"}, {"n": "@up", "x": "@len", "__parent__": "@wrap", "__children__": "@wrap", None: "@len"}],
    "value": ["V", {"x": "VX"}, {"__children__": "VC", "__parent__": "VP"}, {None: "V0", "n": "VN"}, {"y": ["l"]}, {"x": None, "__parent__": None, None: "V0"}, {"n": "VN", "x": "VX", "__parent__": "VP", "__children__": "VC", None: "V0"}],
    "validator": ["@v_even", "@v_never", {"x": "@v_even"}, {"__children__": "@v_short"}, {"__parent__": "@v_even", None: "@v_never"}, "@v_value", {"y": "@v_never"}, "@v_named", "@v_none", "@v_private", {"x": None, "__parent__": None, None: "@v_never"}, {"n": "@v_even", "x": "@v_short", "__parent__": "@v_never", "__children__": "@v_never"}],
    "children": [True],
    "every": [True],
    "private_parent": [True],
    "private_children": [True],
    "private": [True],
    "private_names": [["x"], ["n", "y"]],
    "ignore_names": [["x"], ["n"], ["y", "n"]],
    "marker": [True],
    "format_all": [True],
    "validate_all": [True],
    "pre_match_processor": ["@p_none", "@p_drop0", "@p_replace", "@p_mutate", "@p_private"],
    "post_match_processor": ["@p_none", "@p_drop0", "@p_replace", "@p_mutate", "@p_private"],
    "post_processor": ["@o_reverse", "@o_first", "@o_named", "@o_or"],
}

BASES = [
    ("regex", ("(?P<x>a)(b)(?P<y>c)?",)),
    ("regex", ("(?P<x>a(?P<y>b))", "c")),
    ("string", ("ab", "c")),
    ("functional", (((0, 2), (1, 1), (3, 5)), ((2, 3),))),
]
CHAINS = [
    ((("string", "a", None, None, "x"), ("regex", "(?P<y>b)(c)?", None, None, None)),),
    ((("string", "a", "+", None, None), ("string", "b", "*", None, "y"), ("string", "c", "?", None, "x")),),
    ((("string", "a", None, True, "x"), ("regex", "b(?P<y>c)?", "?", None, "n")),),
]
TEXT = "abcaba"


def const(value):
    return lambda s: value


def build(kind, patterns, opts):
    opts = {k: resolve(v) for k, v in opts.items()}
    if kind == "chain":
        bulk = Rebulk(default_rules=False)
        add(bulk.chain(**opts), decode(patterns[0]))
        return bulk.effective_patterns({})[0]
    if kind == "regex":
        return RePattern(*patterns, **opts)
    if kind == "string":
        return StringPattern(*patterns, **opts)
    return FunctionalPattern(*[const(list(p)) for p in patterns], **opts)


def run(ctx, case):
    base, devs = case
    kind, patterns = ("chain", CHAINS[base - len(BASES)]) if base >= len(BASES) else BASES[base]
    opts = dict(devs)
    want = [view(m) for m in process(kind, patterns, TEXT, opts)]
    pattern = build(kind, patterns, opts)
    got = pattern.matches(TEXT)
    ctx.ran()
    ctx.eq([view(m) for m in got], want, lambda: f"{kind}{patterns} {opts}")
    for m in got:
        for c in m.children:
            ctx.ok(kind == "chain" or c.parent is None or c.parent.span == c.initiator.span, "parent")
    ctx.state((base, want))


def cases(tier):
    names = list(OPTIONS)
    for k in range(6 if tier == "thorough" else 5):
        for combo in itertools.combinations(names, k):
            for alts in itertools.product(*[OPTIONS[o] for o in combo]):
                devs = tuple(zip(combo, alts))
                for base in range(len(BASES)):
                    if k >= 4 and base == 3:
                        continue
                    yield base, devs


def chain_cases(tier):
    names = list(OPTIONS)
    for k in range(5 if tier == "thorough" else 4):
        for combo in itertools.combinations(names, k):
            for alts in itertools.product(*[OPTIONS[o] for o in combo]):
                for base in range(len(CHAINS)):
                    yield len(BASES) + base, tuple(zip(combo, alts))


def whole_run(ctx, case):
    """The same through Rebulk: two patterns with options, no rules."""
    one, two = case
    bulk = Rebulk(default_rules=False)
    want, markers = [], []
    for base, devs in (one, two):
        kind, patterns = BASES[base]
        bulk.pattern(build(kind, patterns, dict(devs)))
        for m in process(kind, patterns, TEXT, dict(devs)):
            (markers if m.marker else want).append(view(m))
    got = bulk.matches(TEXT)
    ctx.ran()
    ctx.eq([view(m) for m in got], want, "matches")
    ctx.eq([view(m) for m in got.markers], markers, "markers")
    ctx.state(case)


def whole_cases(tier):
    singles = [(b, ((o, a),)) for b in range(len(BASES)) for o in OPTIONS for a in OPTIONS[o]]
    for i, one in enumerate(singles):
        for two in singles[i % 3::3] if tier != "thorough" else singles:
            yield one, two


def families():
    return [
        Family("options", cases, run, "every combination of up to 4 (thorough 5) options x every alternative x 4 base patterns (groups, nested groups, strings, functions)"),
        Family("chains", chain_cases, run, "every combination of up to 3 (thorough 4) options x every alternative, on 3 chains"),
        Family("pairs", whole_cases, whole_run, "pairs of patterns with one non-default option each, through Rebulk.matches without rules"),
        sizes("C11"),
    ]
