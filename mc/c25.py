"""C25: bundled validators and combinators on every span of every short text."""
from __future__ import annotations

import itertools
from functools import partial

from rebulk import Rebulk
from rebulk.formatters import default_formatter, formatters
from rebulk.match import Match
from rebulk.validators import allways_true, chars_after, chars_before, chars_surround, validators

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["non-empty spans inside the text"]


class Holds:
    """A container, which can only be asked what it contains."""

    def __init__(self, chars):
        self.chars = chars

    def __contains__(self, char):
        return char in self.chars

    def __repr__(self):
        return f"Holds({self.chars!r})"


CHARSETS = [Holds("-"), Holds("aE \n"), "", "-", "- ", "a", "a-b", ["-"], {"-", " "}, ("a",), frozenset(" "), {"-": 1}, "é", "\n", "-\n\t", ["\n", "A"], "aE", "0", ["-a", "b"], (), ("- ", "a"), {"aE": 1, "0": 0}]


def texts(alphabet, top):
    for n in range(1, top + 1):
        for chars in itertools.product(alphabet, repeat=n):
            yield "".join(chars)


def chars_run(ctx, case):
    text, index = case
    chars = CHARSETS[index]
    n = len(text)
    for s in range(n):
        for e in range(s + 1, n + 1):
            for extra in ({}, {"value": "-", "name": "n"}, {"marker": True, "private": True}):
                m = Match(s, e, input_string=text, **extra)
                before = s == 0 or text[s - 1] in chars
                after = e == n or text[e] in chars
                ctx.ran()
                got = (chars_before(chars, m), chars_after(chars, m), chars_surround(chars, m), partial(chars_surround, chars)(m), allways_true(m))
                ctx.eq(tuple(map(bool, got)), (before, after, before and after, before and after, True), lambda: f"{text!r}{(s, e)} with {chars!r}")
                both = validators(partial(chars_before, chars), partial(chars_after, chars))
                for _ in range(2):
                    ctx.eq(bool(both(m)), before and after, lambda: f"validators: {text!r}{(s, e)} with {chars!r}")
                ctx.eq((m.span, m.name, m.raw), ((s, e), extra.get("name"), text[s:e]), "the match afterwards")
                # a child match, whose parent is elsewhere
                c = Match(s, e, input_string=text, parent=Match(0, n, input_string=text))
                ctx.eq(bool(chars_surround(chars, c)), before and after, lambda: f"{text!r}{(s, e)} with {chars!r}, as a child")
    ctx.state((text, index))


def chars_cases(tier):
    deep = tier == "thorough"
    for alphabet, top in (("a- b" if deep else "a- ", 6 if deep else 5), ("a-\n", 5 if deep else 4), ("aAEéE\u0301", 4 if deep else 3), ("0a\t_", 4 if deep else 3)):
        for text in texts(alphabet, top):
            for i in range(len(CHARSETS)):
                yield text, i


def pattern_run(ctx, case):
    """As validators of patterns: only the matches whose neighbours are accepted remain."""
    text, index, which, kind = case
    chars = CHARSETS[index]
    fn = {"before": chars_before, "after": chars_after, "surround": chars_surround}[which]
    validator = partial(fn, chars)
    if kind == "string":
        bulk = Rebulk(default_rules=False).string("a", validator=validator)
    elif kind == "regex":
        bulk = Rebulk(default_rules=False).regex("(a)", children=True, validator={"__children__": validator})
    elif kind == "rule":
        bulk = Rebulk(default_rules=False).defaults(validator=validators(validator, allways_true)).functional(lambda s: [(i, i + 1) for i, c in enumerate(s) if c == "a"])
    got = [m.start for m in bulk.matches(text)]
    ctx.ran()
    n = len(text)
    want = []
    for i in range(n):
        before = i == 0 or text[i - 1] in chars
        after = i + 1 == n or text[i + 1] in chars
        if text[i] == "a" and {"before": before, "after": after, "surround": before and after}[which]:
            want.append(i)
    ctx.eq(got, want, lambda: f"{kind} 'a' in {text!r} validated by chars_{which}({chars!r})")
    ctx.state(case)


def pattern_cases(tier):
    for text in itertools.chain(texts("a-b", 7 if tier == "thorough" else 6), texts("a-\n", 4)):
        for i in (0, 1, 2, 3, 5, 6, 8, 13, 14):
            for which in ("before", "after", "surround"):
                for kind in ("string", "regex", "rule"):
                    yield text, i, which, kind


FNS = {"upper": str.upper, "strip": str.strip, "twice": lambda s: s * 2, "rev": lambda s: s[::-1], "drop": lambda s: s[1:], "default": default_formatter, "wrap": lambda s: f"<{s}>", "len": len, "none": lambda s: None, "zero": lambda s: 0, "empty": lambda s: "", "repr": repr}
TRUTH = {"yes": lambda m: True, "no": lambda m: False, "one": lambda m: 1, "none": lambda m: None, "empty": lambda m: "", "text": lambda m: "x", "start": lambda m: m.start, "whole": lambda m: m.input_string[2:] != "x"}


def compose_run(ctx, case):
    kind, names, text = case
    if kind == "formatters":
        chain = formatters(*[FNS[n] for n in names])
        want = text
        try:
            for n in names:
                want = FNS[n](want)
        except (TypeError, AttributeError) as exc:
            ctx.raises(type(exc), lambda: chain(text), f"{names} on {text!r}")
            return
        for _ in range(2):
            ctx.eq(chain(text), want, lambda: f"formatters{names} on {text!r}")
        nested = formatters(formatters(*[FNS[n] for n in names[:1]]), formatters(*[FNS[n] for n in names[1:]]))
        ctx.eq(nested(text), want, lambda: f"nested formatters{names} on {text!r}")
    else:
        chain = validators(*[TRUTH[n] for n in names])
        for start, text in itertools.product((0, 1), ("ab", "abx", "aby")):  # equal matches of several texts
            m = Match(start, 2, input_string=text)
            want = all(bool(TRUTH[n](m)) for n in names)
            for _ in range(2):
                ctx.eq(bool(chain(m)), want, lambda: f"validators{names} at {start}")
            ctx.eq(bool(validators(chain, allways_true)(m)), want, lambda: f"nested validators{names} at {start}")
    ctx.ran()
    ctx.state(case)


def compose_cases(tier):
    for k in range(5 if tier == "thorough" else 4):
        for names in itertools.product(FNS, repeat=k):
            for text in ("", "aB", " xy "):
                yield "formatters", names, text
        for names in itertools.product(TRUTH, repeat=k):
            yield "validators", names, None


def families():
    return [
        Family("chars", chars_cases, chars_run, "every text up to 5 (thorough 6) characters x every span x 22 character sets; shorter ones with line breaks, upper case, accents, digits and tabs"),
        Family("patterns", pattern_cases, pattern_run, "as validators of string, regex and functional patterns, every text up to 6 (thorough 7)"),
        Family("compose", compose_cases, compose_run, "every sequence of up to 3 (thorough 4) formatters / validators"),
        sizes("C25"),
    ]
