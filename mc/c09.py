"""C09: string patterns - every small text, pattern and search window."""
from __future__ import annotations

import itertools

from rebulk import Rebulk
from rebulk.pattern import StringPattern
from rebulk.utils import find_all

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["texts up to 8 (thorough 10) characters over alphabets of 2-4 characters; characters whose lower case is longer stand for themselves"]


def low(c):
    return c.lower() if len(c.lower()) == 1 else c


def occurrences(text, sub, start, end, ignore_case):
    """Left-to-right non-overlapping occurrences inside text[start:end], by scanning."""
    lo, hi, _ = slice(start, end).indices(len(text))
    if not sub:
        return []
    same = (lambda a, b: low(a) == low(b)) if ignore_case else (lambda a, b: a == b)
    out, at = [], lo
    while at + len(sub) <= hi:
        if all(same(text[at + i], sub[i]) for i in range(len(sub))):
            out.append(at)
            at += len(sub)
        else:
            at += 1
    return out


def texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


def run(ctx, case):
    text, subs, start, end, ignore_case = case
    options = {}
    if start is not None:
        options["start"] = start
    if end is not None:
        options["end"] = end
    if ignore_case:
        options["ignore_case"] = True
    want = [(at, at + len(s)) for s in subs for at in occurrences(text, s, start, end, ignore_case)]
    if len(subs) == 1:
        ctx.eq(list(find_all(text, subs[0], start, end, ignore_case=ignore_case)), [a for a, _ in want], lambda: f"find_all{case}")
    pattern = StringPattern(*subs, **options)
    for got in (pattern.matches(text), Rebulk(default_rules=False).string(*subs, name="n", **options).matches(text)):
        ctx.eq([m.span for m in got], want, lambda: f"string{case}")
        ctx.eq([(m.value, m.raw, m.input_string, len(m)) for m in got], [(text[a:b], text[a:b], text, b - a) for a, b in want], lambda: f"string{case}: text")
    ctx.ran(3)
    ctx.state((text, subs, want))


def whole_cases(tier):
    deep = tier == "thorough"
    for text in texts("ab", 10 if deep else 8):
        for sub in texts("ab", 4):
            yield text, (sub,), None, None, False
    for text in texts("aAbI", 6 if deep else 5):
        for sub in texts("aAb", 3 if deep else 2):
            yield text, (sub,), None, None, True
            yield text, (sub,), None, None, False
    for text in texts("iI\u0130", 6 if deep else 5):
        for sub in texts("iI\u0130", 2):
            yield text, (sub,), None, None, True
    for text in texts("\u00e9\u00c9a\u1e9e\u00df", 5 if deep else 4):
        for sub in texts("\u00e9\u00c9a\u1e9e\u00df", 2):
            for case in (True, False):
                yield text, (sub,), None, None, case
    for text in texts("ab", 4):
        for subs in itertools.product(list(texts("ab", 2)), repeat=2):
            yield text, subs, None, None, False
    for text in texts("\u03a3\u03c3\u03c2\u0391.", 5 if deep else 4):  # the lower case of a sigma depends on what is around, not here
        for sub in texts("\u03a3\u03c3\u03c2\u0391", 2):
            yield text, (sub,), None, None, True
    # characters a search could take for something else: lines, regular expressions, several code units
    for alphabet in ("a\n\r", "a.*", "a\\n", "a(|", "a \t", "a\x00-", "a\U0001f600e", "e\u0301E"):
        for text in texts(alphabet, 5 if deep else 4):
            for sub in texts(alphabet, 2):
                for case in (True, False):
                    yield text, (sub,), None, None, case


def window_cases(tier):
    deep = tier == "thorough"
    bounds = [None] + list(range(-7, 8))
    for text in texts("ab", 6 if deep else 5):
        for sub in ("a", "ab", "aa", "", "bab"):
            for start in bounds:
                for end in bounds:
                    yield text, (sub,), start, end, False
    for text in ("aAa\u0130A", "\u0130\u0130aA"):
        for sub in ("a", "Aa", "\u0130", "\u0130a"):
            for start in bounds:
                for end in bounds:
                    yield text, (sub,), start, end, True
    for text in texts("ab", 4):
        for subs in (("a", "b"), ("ab", "b", "a"), ("b", "")):
            for start, end in itertools.product((None, 0, 1, 2), (None, 1, 3, -1)):
                yield text, subs, start, end, False


def families():
    return [
        Family("texts", whole_cases, run, "every text x pattern over {a,b} and alphabets with upper case, accents and characters with a longer lower case; find_all, StringPattern and Rebulk.string"),
        Family("windows", window_cases, run, "every start/end in [-7, 7] and absent"),
        sizes("C09"),
    ]
