"""C10: regex patterns - every expression of a small grammar on every short text."""
from __future__ import annotations

import itertools
import re

from rebulk import Rebulk
from rebulk.pattern import RePattern

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["the expression grammar: sequences, alternations, optional and repeated groups (named or not), nesting, over {a, b}; the standard re module is the reference for finditer"]

BASE = ["a", "b", "a?", "b*", "ab", "a|b", ""]
GROUPS = ["(%s)", "(?P<x>%s)", "(%s)?", "(?P<y>%s)?", "(%s)*", "(?P<x>%s)+", "(?:%s)?"]


def expressions(deep):
    one = [g % b for g in GROUPS for b in BASE]
    items = BASE[:5] + one
    seen = []
    for e in items:
        seen.append(e)
    for a, b in itertools.product(items, items):
        seen += [a + b, a + "|" + b]
    nested = [g % (p + h % b + s) for g in GROUPS for p, s in (("", ""), ("a", ""), ("", "b?"), ("", "|b")) for h in GROUPS for b in (BASE if deep else ("a", "b", "a|b", "b*"))]
    seen += nested
    seen += [n + t for n in nested for t in ("(b)?", "(?P<z>a)", "a")]
    seen += ["^" + i for i in one] + [i + "$" for i in one] + ["(?=%s)b?" % i for i in one] + [i + r"\b" for i in one]
    if deep:
        seen += [a + b + c for a, b, c in itertools.product(one[:28], ("a", "(b)", "(?P<z>b)?", "|"), one[7:35])]
    out, done = [], set()
    for e in seen:
        if e in done:
            continue
        done.add(e)
        try:
            re.compile(e)
        except re.error:
            continue
        out.append(e)
    return out


def texts(n, alphabet="ab"):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def reference(rx, text, name):
    """[(span, name, [(group span, group name)])]"""
    names = {v: k for k, v in rx.groupindex.items()}
    out = []
    for mo in rx.finditer(text):
        if mo.end() > mo.start():
            out.append((mo.span(), name, [(mo.span(g), names.get(g, name)) for g in range(1, rx.groups + 1) if mo.end(g) > mo.start(g)]))
    return out


def check(ctx, got, want, text, mode, what):
    """Compare returned matches with the reference rows under an output mode."""
    flat = []
    for span, name, children in want:
        if mode != "children":
            flat.append((span, name, None, children))
        if mode != "parent":
            flat += [(s, n, span, []) for s, n in children]
    ctx.eq([(m.span, m.name, m.parent.span if m.parent else None, [(c.span, c.name) for c in m.children]) for m in got], flat, what)
    for m in got:
        ctx.ok(m.raw == text[m.start:m.end] == m.value and m.input_string == text, what)
        ctx.ok(all(c.parent is m and c.raw == text[c.start:c.end] == c.value and c.input_string == text and c.initiator is m for c in m.children), what)
        ctx.ok(m.initiator.span == (m.parent or m).span, what)


MODES = {"parent": {}, "children": {"children": True}, "every": {"every": True}, "both": {"every": True, "children": True}}


def run(ctx, case):
    expr, n = case
    rx = re.compile(expr)
    patterns = {(mode, name): RePattern(expr, **MODES[mode], **({"name": name} if name else {})) for mode in MODES for name in (None, "n")}
    total = []
    for text in texts(n):
        for name in (None, "n"):
            want = reference(rx, text, name)
            for mode in MODES:
                got = patterns[mode, name].matches(text)
                ctx.ran()
                check(ctx, got, want, text, "every" if mode == "both" else mode, lambda: f"regex({expr!r}, {mode}, name={name}) on {text!r}")
        total.append(want)
    ctx.state(total)


def cases(tier):
    for e in expressions(tier == "thorough"):
        yield e, 5 if tier == "thorough" else 4


FORMS = ["str", "flags", "tuple", "list", "tuple1", "both", "dict", "dictflags", "compiled", "mixed"]


def forms_run(ctx, case):
    expr, flags, form, abbr = case
    plain = expr
    for k, v in abbr:
        plain = plain.replace(k, v)
    options = {"abbreviations": [tuple(a) for a in abbr]} if abbr else {}
    rx = re.compile(plain, flags)
    if form == "str":
        args, options = [expr], {**options, "flags": flags} if flags else options
    elif form == "flags":
        args, options = [expr], {**options, "flags": flags}
    elif form == "dict":
        args = [{"pattern": expr, "flags": flags}]
    elif form == "dictflags":
        args = [{"pattern": expr}] if not flags else [{"flags": flags, "pattern": expr}]
    elif form == "compiled":
        args = [rx]
    elif form == "tuple":
        args = [(plain, flags)]
    elif form == "both":  # flags of the pattern are those of its strings
        args = [(plain, flags), {"pattern": expr, "flags": flags}, re.compile(plain, flags)]
        options = {**options, "flags": re.IGNORECASE | re.DOTALL}
    elif form == "list":
        args = [[plain, flags]]
    elif form == "tuple1":
        args = [(plain,)]
        rx = re.compile(plain)
    else:
        args = [rx, (plain, flags), {"pattern": expr, "flags": flags}]
    before = repr(args)
    for text in texts(3, "aA-b"):
        want = reference(rx, text, "n") * (3 if form in ("mixed", "both") else 1)
        got = Rebulk(default_rules=False).regex(*args, name="n", every=True, **options).matches(text)
        ctx.ran()
        check(ctx, got, want, text, "every", lambda: f"{case} on {text!r}")
    ctx.eq(repr(args), before, f"{case}: pattern objects modified")
    ctx.state(case)


ABBR = [(), (("-", "[-b]"),), (("@", "a-"), ("-", "[-b]")), (("-", "[-b]"), ("@", "a-")), (("@", "(?P<x>a)"),), (("a", "b"), ("b", "(a)")), (("a", "b"), ("a-", "(a)")), (("-", "b"), ("a-", "(?P<x>a)"), ("-b", "a")), (("a-", "(?P<x>a)"), ("a", "-")), (("A", "a"), ("a", "[ab]"), ("a", "c"))]


def forms_cases(tier):
    for expr in ("a", "a-b", "(?P<x>a)?-", "@", "@b?", "(a|-)(?P<y>b)?", "A@", "(-)+", "a(?P<z>-?)"):
        for flags in (0, re.I, re.I | re.X):
            for form in FORMS:
                for abbr in ABBR:
                    plain = expr
                    for k, v in abbr:
                        plain = plain.replace(k, v)
                    try:
                        re.compile(plain)
                    except re.error:
                        continue
                    if abbr and form == "compiled":
                        continue
                    yield expr, int(flags), form, abbr


# -- what an occurrence sees around it: lines, lookarounds, back references, lazy quantifiers -------
AROUND = ["(?<=a)", "(?<!a)", "(?=b)", "(?!b)", "(?<=\\n)", "(?<=ab)", "(?<!\\s)", r"\b", r"\B", "^", r"\A"]
CORE = ["a", "b", ".", r"\s", "[^a]", "a?", "b*", "(a)", "(?P<x>b)?", "(?P<x>.)", "(a|\\n)+", ".*?", "a.b", r"\w+", "\n", "(?P<x>[ab])(?P=x)", r"(.)\1", "(a)|(\\n)", "(?P<x>a)?(?(x)b|\\n)", "(?s:.)b", "(?>a*)", "a++", "(a*?)b", "a{2}", "(?P<x>a{1,2}?)"]
AFTER = ["", "$", r"\Z", "(?=b)", "(?!b)", "(?=\\n)", "(?!$)", r"\b", r"\B", "(?<=b)", "(?<!a)"]
FLAGS = [0, re.M, re.S, re.M | re.S]


def around_run(ctx, case):
    expr, flags, n = case
    rx = re.compile(expr, flags)
    form = rx if len(expr) % 2 else (expr, flags)
    patterns = {mode: RePattern(form, name="n", **MODES[mode]) for mode in MODES}
    whole = Rebulk(default_rules=False).regex(expr, flags=flags, name="n", every=True)
    total = []
    for text in texts(n, "ab\n"):
        want = reference(rx, text, "n")
        for mode in MODES:
            check(ctx, patterns[mode].matches(text), want, text, "every" if mode == "both" else mode, lambda: f"regex({expr!r}, flags={flags}, {mode}) on {text!r}")
        check(ctx, list(whole.matches(text)), want, text, "every", lambda: f"Rebulk().regex({expr!r}, flags={flags}) on {text!r}")
        ctx.ran()
        total.append(want)
    ctx.state(total)


def around_cases(tier):
    deep = tier == "thorough"
    done = set()
    for before, core, after in itertools.product([""] + AROUND, CORE, AFTER):
        if not deep and before and after not in ("", "$", "(?!b)", r"\B", "(?=\\n)"):
            continue
        expr = before + core + after
        if expr in done:
            continue
        done.add(expr)
        try:
            re.compile(expr)
        except re.error:
            continue
        for flags in FLAGS if deep or not (before and after) else FLAGS[:2]:
            yield expr, int(flags), 5 if deep else 4 if not (before and after) else 3


def families():
    return [
        Family("around", around_cases, around_run, "lookarounds, anchors, back references, lazy, possessive and conditional expressions x M/S flags x every text over {a,b,newline} up to 4 (thorough 5) characters"),
        Family("expressions", cases, run, "every expression of the grammar x every text over {a,b} up to 4 (thorough 5) characters x children/every/both/parent x named or not"),
        Family("forms", forms_cases, forms_run, "expressions x flags x pattern forms (string, tuple, list, dict, compiled, mixed) x abbreviation lists x every text up to 3 characters over {a,A,-,b}"),
        sizes("C10"),
    ]
