"""C19: the regex-module backend against the re backend - two copies of the package, one per backend, on the same inputs."""
from __future__ import annotations

import importlib
import itertools
import os
import re
import sys

import rebulk
from rebulk import Rebulk
from rebulk.pattern import RePattern

from . import c23, configs
from .c10 import MODES, expressions, texts
from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["an expression is interpreted alike when the two modules' own finditer give the same match and group spans on the texts tried; others are left out (and counted by the difference between cases and states)"]

OWN = ("rebulk", "mc.configs", "mc.refpattern", "mc.c23", "mc.lookups")


def second_copy():
    """Import the package again with the regex backend on; the modules already imported stay as they are."""
    def mine(name):
        return any(name == o or name.startswith(o + ".") for o in OWN)

    saved = {name: m for name, m in sys.modules.items() if mine(name)}
    for name in saved:
        del sys.modules[name]
    attrs = {name.split(".")[1]: getattr(sys.modules["mc"], name.split(".")[1]) for name in saved if name.startswith("mc.")}
    os.environ["REBULK_REGEX_ENABLED"] = "1"
    try:
        copy = importlib.import_module("rebulk")
        importlib.import_module("rebulk.pattern")
        return copy, importlib.import_module("mc.configs"), importlib.import_module("mc.c23"), sys.modules["rebulk.pattern"], sys.modules["rebulk.remodule"]
    finally:
        del os.environ["REBULK_REGEX_ENABLED"]
        for name in [n for n in sys.modules if mine(n)]:
            del sys.modules[name]
        sys.modules.update(saved)
        for name, m in attrs.items():
            setattr(sys.modules["mc"], name, m)


RX, RX_CONFIGS, RX_C23, RX_PATTERN, RX_REMODULE = second_copy()


def backend_run(ctx, case):
    from rebulk import remodule

    ctx.eq((remodule.REGEX_ENABLED, remodule.re.__name__), (False, "re"), "default backend")
    ctx.eq((RX_REMODULE.REGEX_ENABLED, RX_REMODULE.re.__name__), (True, "regex"), "backend with REBULK_REGEX_ENABLED")
    ctx.ok(RX is not rebulk, "two copies")
    ctx.raises(NotImplementedError, lambda: RePattern("a", repeated_captures=True), "repeated_captures with re")
    ctx.ran()


def rows(got):
    return [(m.span, m.name, m.value, m.raw, m.parent.span if m.parent else None, [(c.span, c.name, c.value, c.parent is m) for c in m.children]) for m in got]


def spans(finditer, groups):
    return [[mo.span(g) for g in range(groups + 1)] for mo in finditer if mo.end() > mo.start()]


def expr_run(ctx, case):
    expr, n = case
    check_expression(ctx, expr, texts(n))


def check_expression(ctx, expr, inputs):
    import warnings

    import regex

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            std, other = re.compile(expr), regex.compile(expr, regex.VERSION0)
        except (re.error, regex.error):
            return
        compare_backends(ctx, expr, inputs, std, other)


def compare_backends(ctx, expr, inputs, std, other):
    if std.groups != other.groups or any(spans(std.finditer(t), std.groups) != spans(other.finditer(t), std.groups) for t in inputs):
        return
    names = {v: k for k, v in std.groupindex.items()}
    total = []
    for mode, options in MODES.items():
        one = RePattern(expr, **options)
        two = RX_PATTERN.RePattern(expr, repeated_captures=False, **options)
        three = RX_PATTERN.RePattern(expr, name="n", **options)
        four = RX_PATTERN.RePattern(expr, name="n", repeated_captures=True, **options)
        for text in inputs:
            want = rows(one.matches(text))
            ctx.ran(4)
            ctx.eq(rows(two.matches(text)), want, lambda: f"regex({expr!r}, {mode}) on {text!r} with the regex module, no repeated captures")
            # all captures of each group
            flat = []
            for mo in other.finditer(text):
                if mo.end() == mo.start():
                    continue
                children = [(s, names.get(g, "n")) for g in range(1, std.groups + 1) for s in mo.spans(g) if s[1] > s[0]]
                for g in range(1, std.groups + 1):
                    if mo.end(g) > mo.start(g):
                        ctx.eq(mo.spans(g)[-1], mo.span(g), "last capture")
                if mode != "children":
                    flat.append((mo.span(), "n", None, children))
                if mode != "parent":
                    flat += [(s, name, mo.span(), []) for s, name in children]
            for pattern in (three, four):
                got = [(m.span, m.name, m.parent.span if m.parent else None, [(c.span, c.name) for c in m.children]) for m in pattern.matches(text)]
                ctx.eq(got, flat, lambda: f"regex({expr!r}, {mode}) on {text!r} with repeated captures")
            total.append(flat)
    ctx.state((expr, total))


def expr_cases(tier):
    for e in expressions(tier == "thorough"):
        yield e, 5 if tier == "thorough" else 4


def more_expressions(deep):
    """Counted and nested repetitions, lookarounds, anchors, lazy and case-insensitive expressions."""
    items = ["(a)", "(?P<x>a)", "(?P<y>b)?", "(a|b)", "(?P<x>ab?)", "(b*)", "((a)|b)", "(?:(?P<x>a)|(b))", "((?P<x>a)(?P<y>b)?)", "(?:a(b)?)"]
    counts = ["{2}", "{1,2}", "{2,}", "{0,3}", "+", "*", "+?", "{2,3}?", "??"]
    one = [i + c for i in items for c in counts]
    out = list(one)
    out += [a + b for a in one[:: 1 if deep else 3] for b in ("(b)", "a", "(?P<z>a)?", "$")]
    out += [f"(?P<w>{i})" + c for i in one for c in ("+", "{2}", "?")] + [f"(?:{i}b?)+" for i in one]
    out += [r"(a)(?=b)", r"(?<=a)(b)", r"(?<!a)(b+)", r"(a)(?!a)", r"^(a)|(b)$", r"\b(a+)", r"(a)\1", r"(?P<x>a)?(b)(?(x)a|b)", r"(?P<x>[ab])(?P=x)", r"(.)\1+", r"[^a](a)", r"(?:)(a)", r"a*?(b)", r"(?:(?=a*(b))a)+", r"(?:(?=(a+b?))a)+", r"(?:(?<=(a))b|a)+", r"(?:(?=(a))(?P<x>a))+b", r"(?:a(?=.*(b))|b(?<=(a).*))+", r"(?:(?<=(?P<x>a)b*)b|a)+"]
    return out


def capture_run(ctx, case):
    check_expression(ctx, *case)


def capture_cases(tier):
    for e in more_expressions(tier == "thorough"):
        yield e, texts(7 if tier == "thorough" else 6)
    folding = ["".join(t) for k in range(4 if tier == "thorough" else 3) for t in itertools.product("sSßſkK\u212aiIıİ é\u0301\n_0٣", repeat=k)]
    for flags in ("", "(?i)", "(?s)", "(?m)", "(?x)", "(?a)", "(?ai)", "(?im)"):
        for e in ("s", "(ss)", "(?P<x>ß)", "(ſ)", "k", "(K)+", "(?P<x>i)|(ı)", "[a-z]+", "([^s])", r"(\w)+", r"\b(.)", r"(\d)|(\W)", r"\s(.)", "^(.)$", "(.)(?P<y>.)", "[[a]", "(s|ß)+", "[k-]", r"(.)\Z", "(?P<x>é)"):
            yield flags + e, folding


def menu_run(ctx, case):
    kind, labels, text = case
    if kind == "config":
        want = configs.result_view(configs.MENU[labels[0]](configs.plain)[0].matches(*text))
        got = RX_CONFIGS.result_view(RX_CONFIGS.MENU[labels[0]](RX_CONFIGS.plain)[0].matches(*text))
    else:
        one, two = Rebulk(), RX.Rebulk()
        for label in labels:
            c23.MENU[label](one)
            RX_C23.MENU[label](two)
        a, b = one.matches(text), two.matches(text)
        want, got = [[c23.brief(m) for m in c] for c in (a, a.markers)], [[c23.brief(m) for m in c] for c in (b, b.markers)]
    ctx.ran(2)
    ctx.eq(got, want, lambda: f"{kind} {labels} on {text!r}: regex backend")
    ctx.state((labels, got))


def menu_cases(tier):
    for name in configs.MENU:
        for s in configs.STRINGS[name]:
            for c in configs.CONTEXTS:
                yield "config", (name,), (s, c)
    n = 5 if tier == "thorough" else 4
    for label in c23.MENU:
        for text in c23.texts_up_to(n + 1):
            yield "menu", (label,), text
    regexes = [label for label in c23.MENU if label[0] in "rc"]
    for pair in itertools.product(regexes, repeat=2):
        for text in c23.texts_up_to(n - 1):
            yield "menu", pair, text


# -- pattern forms, flags and abbreviations -----------------------------------------------------------
def forms_run(ctx, case):
    import regex

    expr, flags, form = case
    results = []
    for module, cls in ((re, RePattern), (regex, RX_PATTERN.RePattern)):
        f = 0
        for name in flags:
            f |= getattr(module, name)
        options = {"repeated_captures": False} if module is regex else {}
        if form == "option":
            pattern = cls(expr, flags=f, every=True, name="n", **options)
        elif form == "tuple":
            pattern = cls((expr, f), every=True, name="n", **options)
        elif form == "dict":
            pattern = cls({"pattern": expr, "flags": f}, every=True, name="n", **options)
        elif form == "abbreviation":
            pattern = cls(expr, flags=f, abbreviations=[("-", "[-b]"), ("a", "(a)")], every=True, name="n", **options)
        else:
            pattern = cls(module.compile(expr, f), every=True, name="n", **options)
        results.append([rows(pattern.matches(t)) for t in texts(3, "aA-b")])
        ctx.ran(len(results[-1]))
    ctx.eq(results[1], results[0], lambda: f"{case}")
    ctx.state((case, results[0]))


def forms_cases(tier):
    for expr in ("a", "(a)-", "(?P<x>a)?(b)", "a-|(?P<y>b)", "( a )(b)?", "(?P<x>a(?P<y>-))"):
        for flags in ((), ("I",), ("X",), ("I", "X"), ("M",), ("S", "I")):
            for form in ("option", "tuple", "dict", "compiled", "abbreviation"):
                yield expr, flags, form


def families():
    return [
        Family("backend", lambda tier: [()], backend_run, "which module each copy uses"),
        Family("expressions", expr_cases, expr_run, "every expression of the C10 grammar both modules interpret alike x every text over {a,b} up to 4 (thorough 5) characters x output modes, without and with repeated captures"),
        Family("captures", capture_cases, capture_run, "counted, lazy and nested repetitions, lookarounds, back-references and conditionals x every text over {a,b} up to 6 (thorough 7) characters; flags and character classes x every text up to 2 (thorough 3) of 19 characters with special case folding"),
        Family("menu", menu_cases, menu_run, "the configurations of C07 and the pattern menu of C23 (single and pairs) in both backends"),
        Family("forms", forms_cases, forms_run, "expressions x flags x pattern forms"),
        sizes("C19"),
    ]
