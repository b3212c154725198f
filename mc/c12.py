"""C12: functional patterns - every return shape and every signature."""
from __future__ import annotations

import itertools
from collections import OrderedDict, defaultdict
from functools import wraps
from typing import NamedTuple

from rebulk import Rebulk
from rebulk.loose import call
from rebulk.pattern import FunctionalPattern

from .core import Family
from .sizes import sizes

ASSUMPTIONS = [
    "options returned with a span are name, tags, private, marker, value; the pattern itself has no value option",
    "signatures: plain functions, methods and callable objects whose first parameters are the string and the context; named options do not take the place of those",
]

TEXT = "abcdef"

# (start, end, options) of one item and how it is written
SPANS = [(0, 2), (2, 3), (1, 1), (1, 5), (0, 0)]
OPTS = [None, {}, {"name": "x"}, {"tags": ["u"], "private": True}, {"value": "V", "name": "y", "marker": True}, {"name": None, "private": False}, {"tags": [], "marker": False}]
SHAPES = ["tuple", "list", "dict", "dictstr"]
OTHER_SHAPES = ["named", "ordered", "default", "pair", "numbers"]


class Named(NamedTuple):
    first: int
    last: int


class Pair(list):
    pass


class Number(int):
    """Any integer, like the members of an IntEnum."""


def write(item):
    shape, span, opts = item
    if shape in ("dict", "dictstr"):
        d = {"start": span[0], "end": span[1]}
        if shape == "dictstr":
            d.update(input_string="other", pattern=None)
        d.update(opts or {})
        return d
    if shape == "numbers":
        return (Number(span[0]), Number(span[1]), *([opts] if opts is not None else []))
    if shape in ("ordered", "default"):
        d = OrderedDict(end=span[1]) if shape == "ordered" else defaultdict(list, {"end": span[1]})
        d.update(opts or {}, start=span[0])
        return d
    if shape == "named" and opts is None:
        return Named(*span)
    parts = list(span) + ([OrderedDict(opts) if shape in ("named", "pair") else dict(opts)] if opts is not None else [])
    return tuple(parts) if shape in ("tuple", "named") else Pair(parts) if shape == "pair" else parts


class Own:
    """An iterable that is neither a list nor a generator."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


CONTAINERS = {
    "single": lambda items: items[0], "list": list, "tuple": tuple, "generator": lambda items: (x for x in items), "iter": iter,
    "own": Own, "values": lambda items: {i: x for i, x in enumerate(items)}.values(), "map": lambda items: map(lambda x: x, items),
}

PATTERN_OPTS = [{}, {"name": "n", "tags": ["t"]}, {"name": "n", "private": True, "children": False}, {"tags": ["t"], "marker": True, "every": True}]


def expect(items, popts):
    rows = []
    for shape, span, opts in items:
        if span[1] <= span[0]:
            continue
        o = {**popts, **(opts or {})}
        rows.append((span[0], span[1], o.get("name"), list(o.get("tags") or []), bool(o.get("private")), bool(o.get("marker")), o.get("value", TEXT[span[0]:span[1]])))
    return rows


def row(m):
    return (m.start, m.end, m.name, list(m.tags), bool(m.private), bool(m.marker), m.value)


def shape_run(ctx, case):
    container, items, p = case
    popts = PATTERN_OPTS[p]
    made = [CONTAINERS[container]([write(i) for i in items]) if items or container != "single" else None for _ in range(4)]

    def function(string):
        return made.pop()

    want = expect(items, popts)
    what = lambda: f"returned {container} of {[write(i) for i in items]}, pattern options {popts}"
    pattern = FunctionalPattern(function, **popts)
    for _ in range(2):
        got = pattern.matches(TEXT)
        ctx.ran()
        ctx.eq([row(m) for m in got], want, what)
        ctx.ok(all(m.input_string == TEXT and m.raw == TEXT[m.start:m.end] and m.pattern is pattern and not m.children for m in got), what)
    got = Rebulk(default_rules=False).functional(function, lambda s: None, lambda s: [], **popts).matches(TEXT)
    ctx.eq(sorted(map(repr, map(row, list(got) + list(got.markers)))), sorted(map(repr, want)), what)
    ctx.eq([row(m) for m in got], [r for r in want if not r[5]], what)
    ctx.state((items, p))


def shape_cases(tier):
    singles = [(s, span, o) for s in SHAPES for span in SPANS for o in range(len(OPTS))]
    singles = [(s, span, OPTS[o]) for s, span, o in singles]
    few = [i for i in singles if i[1] not in ((1, 5), (0, 0)) and i[2] in (None, OPTS[2], OPTS[4])]
    others = [(s, span, OPTS[o]) for s in OTHER_SHAPES for span in SPANS for o in range(5)]
    empty = [(s, (0, 0), o) for s in SHAPES for o in (None, OPTS[2])]
    for container in CONTAINERS:
        for p in range(len(PATTERN_OPTS)):
            if container != "single":
                yield container, (), p
            for i in singles + others:
                yield container, (i,), p
            for pair in itertools.product([i for i in others if i[1] != (1, 5)], few[::5]) if container != "single" else ():
                yield container, pair, p
                yield container, pair[::-1], p
            if container == "single":
                continue
            for pair in itertools.product(singles if tier == "thorough" else few, repeat=2):
                yield container, pair, p
            for one, two in itertools.product(empty, few + empty[:1]):
                yield container, (one, two), p
                yield container, (two, one), p
    tiny = [i for i in few if i[0] != "dictstr" and i[2] != OPTS[4]]
    for container in ("list", "generator", "tuple"):
        for p in (0, 1) if tier == "thorough" else (1,):
            yield from ((container, triple, p) for triple in itertools.product(tiny, repeat=3))


# -- signatures -----------------------------------------------------------------------------------
POSITIONAL = [[], ["string"], ["string", "context"], ["string", "context=None"], ["s", "c", "alpha=None"], ["s", "c=1", "alpha=None", "beta=None"], ["string", "c", "name"]]
STAR = ["", "*args", "*"]
KWONLY = [[], ["alpha=None"], ["beta", "alpha=None"]]
KWARGS = ["", "**kw"]
STYLES = ["function", "method", "callable", "static", "class", "lambda", "static_call", "class_call", "wrapped"]
OPTION_SETS = [{}, {"name": "n"}, {"alpha": 1, "beta": 2}, {"alpha": 1, "beta": 2, "gamma": 3, "name": "n", "tags": ["t"]}]


def source(pos, star, kwonly, kwargs, style):
    params = list(pos)
    if star == "*args":
        params.append("*args")
    elif kwonly:
        params.append("*")
    params += kwonly
    if kwargs:
        params.append(kwargs)
    names = [p.split("=")[0] for p in pos + kwonly]
    seen = "record(dict(%s))" % ", ".join([f"{n}={n}" for n in names] + (["_args=args"] if star == "*args" else []) + (["_kw=kw"] if kwargs else []))
    if style == "lambda":
        return f"f = lambda {', '.join(params)}: {seen}\n"
    if style == "function":
        return f"def f({', '.join(params)}):\n    return {seen}\n"
    if style == "wrapped":  # what counts is how the function itself is called, not the one it stands for
        return f"@wraps(lambda one, two, three, four: None)\ndef f({', '.join(params)}):\n    return {seen}\n"
    deco = {"static": "    @staticmethod\n", "class": "    @classmethod\n"}.get(style.removesuffix("_call"), "")
    first = {"static": [], "class": ["cls"]}.get(style.removesuffix("_call"), ["self"])
    name = "__call__" if "call" in style else "f"
    return f"class C:\n{deco}    def {name}({', '.join(first + params)}):\n        return {seen}\nf = C(){'' if 'call' in style else '.f'}\n"


def sig_run(ctx, case):
    pos, star, kwonly, kwargs, style, o = case
    options = OPTION_SETS[o]
    seen = []

    def record(d):
        d.get("_kw", {}).pop("ignore_unused", None)  # accompanies every call, for the regex module
        seen.append(d)
        return (0, 2)

    scope = {"record": record, "wraps": wraps}
    exec(source(pos, star, kwonly, kwargs, style), scope)  # noqa: S102
    f = scope["f"]
    context = {"k": 1}
    args = (TEXT, context)
    names = [p.split("=")[0] for p in pos]
    accepted = {n for n in names[2:]} | {k.split("=")[0] for k in kwonly}
    want = {}
    for i, p in enumerate(pos):
        name, _, default = p.partition("=")
        want[name] = args[i] if i < 2 else options.get(name, eval(default) if default else None)  # noqa: S307
    for p in kwonly:
        name, _, default = p.partition("=")
        want[name] = options.get(name, eval(default) if default else None)  # noqa: S307
    rest = {k: v for k, v in options.items() if k not in accepted}
    if star == "*args":
        want["_args"] = args[len(pos):]
    if kwargs:
        want["_kw"] = rest
    needs = [p for p in (pos[2:] + kwonly) if "=" not in p and p not in options]
    what = lambda: f"{source(pos, star, kwonly, kwargs, style)!r} with options {options}"
    if needs:
        ctx.raises(TypeError, lambda: call(f, *args, **options), what)
        return
    ctx.eq(call(f, *args, **options), (0, 2), what)
    ctx.eq(seen, [want], what)
    seen.clear()
    got = Rebulk(default_rules=False).functional(f, **options).matches(TEXT, context)
    ctx.ran(2)
    ctx.eq([m.span for m in got], [(0, 2)], what)
    ctx.eq(seen, [want], what)
    ctx.state(case)


def sig_cases(tier):
    for pos in POSITIONAL:
        for star in STAR:
            for kwonly in KWONLY:
                if star == "*" and not kwonly or {p.split("=")[0] for p in pos} & {k.split("=")[0] for k in kwonly}:
                    continue
                if star == "*args" and len(pos) > 2:
                    continue  # the extra parameters would be given by position
                for kwargs in KWARGS:
                    for style in STYLES:
                        for o in range(len(OPTION_SETS)):
                            yield pos, star, kwonly, kwargs, style, o


# -- constructors (call is also documented for them) ----------------------------------------------
def ctor_run(ctx, case):
    pos, kwargs, o = case
    options = OPTION_SETS[o]
    scope = {}
    params = ["self"] + pos + ([kwargs] if kwargs else [])
    names = [p.split("=")[0] for p in pos]
    body = ", ".join([f"{n}={n}" for n in names] + (["_kw=kw"] if kwargs else []))
    exec(f"class C:\n    def __init__({', '.join(params)}):\n        self.seen = dict({body})\n", scope)  # noqa: S102
    if any("=" not in p and p not in options for p in pos[2:]):
        return
    got = call(scope["C"], 1, 2, **options).seen
    got.get("_kw", {}).pop("ignore_unused", None)
    ctx.ran()
    want = {}
    for i, p in enumerate(pos):
        name, _, default = p.partition("=")
        want[name] = (1, 2)[i] if i < 2 else options.get(name, eval(default) if default else None)  # noqa: S307
    if kwargs:
        want["_kw"] = {k: v for k, v in options.items() if k not in names}
    ctx.eq(got, want, str(case))
    ctx.state(case)


def ctor_cases(tier):
    for pos in POSITIONAL:
        for kwargs in KWARGS:
            for o in range(len(OPTION_SETS)):
                yield pos, kwargs, o


def families():
    return [
        Family("shapes", shape_cases, shape_run, "every container x up to 3 items (tuple, list, dict; spans incl. empty; options) x pattern options, called twice"),
        Family("signatures", sig_cases, sig_run, "positional parameters x *args x keyword-only x **kwargs x kind of callable x options"),
        Family("constructors", ctor_cases, ctor_run, "the same for classes through loose.call"),
        sizes("C12"),
    ]
