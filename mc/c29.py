"""C29: matching is local: what is found in a piece of text does not depend on where it stands nor on patterns that match elsewhere."""
from __future__ import annotations

import functools
import itertools
import re

from rebulk import Rebulk
from rebulk.match import Match
from rebulk.rules import AppendTags, CustomRule, RemoveMatch, RenameMatch, Rule
from rebulk.validators import chars_surround

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["patterns, processors, validators, conflict solvers and rules look at nothing but the characters and the matches they touch; chains begin with a part that cannot be empty, and each of their parts has one expression (see C13)"]


def spans_of(text):
    def fn(string):
        i = string.find(text)
        while i >= 0:
            yield i, i + len(text)
            i = string.find(text, i + 1)

    return fn


def backwards(text):
    def fn(string, context):
        return [dict(start=i, end=i + len(text), tags=["fd"]) for i in range(len(string), -1, -1) if string.startswith(text, i)]

    return fn


def bracket(s):
    return f"<{s}>"


def short(m):
    return len(m) < 3


def trim(m):
    if len(m) > 1:
        m.end -= 1


def keep_first(a, b):
    return b


def by_name(a, b):
    return a if (a.name or "") > (b.name or "") else b


def up(s):
    """The upper case where it stands for the same single letters."""
    return s.upper() if len(s.upper()) == len(s) and s.upper().lower() == s else s


# label -> function adding it to a Rebulk; t replaces the letters of expressions
MENU = {
    "s": lambda b, t: b.string(t("a"), name="s"),
    "s_long": lambda b, t: b.string(t("aba"), t("bc"), name="sl", tags=["t"]),
    "s_overlap": lambda b, t: b.string(t("aa"), t("ab"), t("b"), formatter=bracket),
    "s_private": lambda b, t: b.string(t("b"), private=True, name="p"),
    "s_marker": lambda b, t: b.string(t("ab"), marker=True, name="mk"),
    "s_solver": lambda b, t: b.string(t("a"), t("b"), name="so", conflict_solver=keep_first),
    "s_default": lambda b, t: b.string(t("b"), name="sd", conflict_solver=lambda x, y: "__default__"),
    "s_byname": lambda b, t: b.string(t("ba"), name="zz", conflict_solver=by_name),
    "s_upper": lambda b, t: b.string(up(t("a")) + up(t("b")), up(t("c")), ignore_case=True, name="su"),
    "r_upper": lambda b, t: b.regex("(?P<x>" + up(t("a")) + ")@?", flags=re.IGNORECASE, abbreviations=[("@", up(t("b")))], name="ru", every=True),
    "r": lambda b, t: b.regex(t("a+b?"), name="r"),
    "r_groups": lambda b, t: b.regex(t("(?P<x>a)(?P<y>b)?(c)?"), name="rg"),
    "r_children": lambda b, t: b.regex(t("(?P<x>a)|(?P<y>b(c)?)"), children=True, formatter={"y": bracket}),
    "r_every": lambda b, t: b.regex(t("(?P<x>a(b))"), every=True, private_children=True),
    "r_privpar": lambda b, t: b.regex(t("(a)(?P<y>[bc])"), children=True, private_parent=True, tags=["t"]),
    "r_marker": lambda b, t: b.regex(t("(?P<x>b)(?P<y>c|a)"), marker=True, every=True),
    "r_ahead": lambda b, t: b.regex(t("a(?=b)"), t("(?<=a)b"), name="ra"),
    "r_lazy": lambda b, t: b.regex(t("[ab]+?c|b+"), validator=short, name="rl"),
    "r_trim": lambda b, t: b.regex(t("[ab]+"), pre_match_processor=trim, name="rt"),
    "r_edges": lambda b, t: b.regex(t("[ab]+"), validator=functools.partial(chars_surround, ".;"), name="re"),
    "f": lambda b, t: b.functional(spans_of(t("b")), name="f"),
    "f_dict": lambda b, t: b.functional(backwards(t("ab")), name="fd", value="V"),
    "c": lambda b, t: b.chain(name="c").string(t("a")).string(t("b")).repeater("?").close(),
    "c_star": lambda b, t: b.chain(name="cs").regex(t("(?P<x>a)")).repeater("+").regex(t("(?P<y>b)(c)?")).repeater("*").close(),
    "c_fails": lambda b, t: b.chain(name="cf").string(t("a")).string(t("b")).repeater("{2,}").close(),
    "c_children": lambda b, t: b.chain(children=True).regex(t("(?P<x>b)")).regex(t("[ac]"), name="z").repeater("?").close(),
    "c_hidden": lambda b, t: b.chain().string(t("a")).hidden().regex(t("(?P<x>[ab])"), children=True).repeater("{1,2}").close(),
    "c_nested": lambda b, t: b.chain(name="cn").string(t("a")).chain().regex(t("(?P<y>b)")).string(t("a")).repeater("?").close(),
    "c_valid": lambda b, t: b.chain(validator=short, every=True).string(t("a")).string(t("b")).repeater("*").close(),
    "c_breaker": lambda b, t: b.chain(chain_breaker=lambda ms: len(ms) > 2).regex(t("[ab]")).repeater("+").close(),
    "c_func": lambda b, t: b.chain(marker=True).functional(spans_of(t("a"))).regex(t("[ab]")).close(),
}


class Drop(Rule):
    """Removes some matches that share a position with another one."""
    consequence = RemoveMatch

    def when(self, matches, context):
        return [m for m in matches if m.name in ("s", "x") and matches.conflicting(m)]


class Tag(Rule):
    priority = -1
    consequence = AppendTags(["after"])

    def when(self, matches, context):
        return [m for m in matches if m.name in ("f", "y", "re") and not matches.conflicting(m)]


class Rename(Rule):
    priority = -2
    consequence = RenameMatch("renamed")

    def when(self, matches, context):
        return [m for m in matches if m.name == "r" and matches.markers.at_match(m)]


def identity(text):
    return text


def made(labels, rules, t=identity):
    bulk = Rebulk(default_rules=rules > 0)
    for label in labels:
        MENU[label](bulk, t)
    if rules > 1:
        bulk.rules(Drop, Tag, Rename)
    return bulk


def brief(m, shift=0, back=identity):
    value = back(m.value) if isinstance(m.value, str) else m.value
    i = m.initiator
    return m.start + shift, m.end + shift, m.name or "", bool(m.private), bool(m.marker), list(m.tags), value, back(m.raw), (i.start + shift, i.end + shift), [brief(c, shift, back) for c in m.children]


def found(bulk, text, order):
    """What every pattern found, in any order."""
    got = bulk.matches(text)
    return [[brief_of(m, order) for m in ms] for ms in (got, got.markers)]


def brief_of(m, order):
    return order[id(m.initiator.pattern)], m


def rows(result, shift=0, back=identity):
    return [sorted((index, brief(m, shift, back)) for index, m in ms) for ms in result]


# -- pieces of text ---------------------------------------------------------------------------------
def pieces(length):
    return ["".join(p) for n in range(length + 1) for p in itertools.product("abc", repeat=n)]


def concat_run(ctx, case):
    labels, rules, length, seps = case
    bulk = made(labels, rules)
    order = {id(p): i for i, p in enumerate(bulk.effective_patterns())}
    alone = {}
    for text in pieces(length):
        ctx.ran()
        alone[text] = found(bulk, text, order)
    first = {text: rows(result) for text, result in alone.items()}
    for sep in seps:
        for right in alone:
            for left in alone:
                shift = len(left) + len(sep)
                text = left + sep + right
                ctx.ran()
                got = rows(found(bulk, text, order))
                want = [sorted(x + y) for x, y in zip(first[left], rows(alone[right], shift))]
                ctx.eq(got, want, lambda: f"{labels}, rules {rules}: {text!r} is {left!r} and {right!r}")
    ctx.state((labels, rules, [first[t] for t in first][-3:]))


def concat_cases(tier):
    deep = tier == "thorough"
    labels = list(MENU)
    for rules in (0, 1, 2):
        for label in labels:
            yield (label,), rules, 4 if deep else 3, [".", ".;", ";;;"]
    for pair in itertools.permutations(labels, 2) if deep else itertools.combinations(labels, 2):
        for rules in (1, 2) if deep else (2,):
            yield pair, rules, 3 if deep else 2, [".", ".;"] if deep else ["."]
    some = labels if deep else labels[::2]
    for triple in itertools.combinations(some, 3):
        yield triple, 2, 2, ["."] if deep else [";"]


# -- patterns that match elsewhere ------------------------------------------------------------------
ELSEWHERE = {
    "string": lambda b: b.string(".", name="s"),
    "regex": lambda b: b.regex("(?P<x>[.;]+)", name="r", children=True, private_parent=True),
    "functional": lambda b: b.functional(spans_of(";"), name="f", conflict_solver=keep_first),
    "marker": lambda b: b.regex("[.;]", marker=True),
    "private": lambda b: b.string(".", ";", private=True),
    "chain": lambda b: b.chain(name="c").string(".").string(";").repeater("*").close(),
    "nothing": lambda b: b.string("q").regex("(?P<x>q)", children=True).functional(lambda string: None).chain().string("q").close(),
    "child": lambda b: b.rebulk(Rebulk().string(".", name="s").regex(";+", name="y")),
    "children": lambda b: b.rebulk(Rebulk().string("q"), Rebulk()).rebulk(Rebulk(default_rules=False).rebulk(Rebulk().string(";", name="s"))).rebulk(Rebulk().string(".", name="y").string("q")),
    "disabled": lambda b: b.string("a", "b", name="s", disabled=True).rebulk(Rebulk(disabled=True).regex("[abc]+")),
}


@functools.lru_cache
def mixed(length):
    return ["".join(p) for n in range(1, length + 1) for p in itertools.product("ab.", repeat=n)] + [";ab", "ab;", "a;.b", "abc;bc", "ab.;aba"]


def elsewhere_run(ctx, case):
    labels, rules, other, where, nested, length = case
    texts = mixed(length)
    plain, bulk = Rebulk(default_rules=rules > 0), Rebulk(default_rules=rules > 0)
    if where == 0:
        ELSEWHERE[other](bulk)
    for i, label in enumerate(labels):
        for b in (plain, bulk):
            if nested and i:
                child = Rebulk(default_rules=False)
                MENU[label](child, identity)
                b.rebulk(child)
            else:
                MENU[label](b, identity)
        if i + 1 == where:
            ELSEWHERE[other](bulk)
    if rules > 1:
        plain.rules(Drop, Tag, Rename)
        bulk.rules(Drop, Tag, Rename)
    for text in texts:
        ctx.ran(2)
        want, got = plain.matches(text), bulk.matches(text)
        for kind, w, g in (("matches", want, got), ("markers", want.markers, got.markers)):
            ctx.eq([brief(m) for m in g if text[m.start] in "abc"], [brief(m) for m in w], lambda: f"{labels}, the second {'in a child Rebulk' if nested else 'in the same Rebulk'}, rules {rules}, {other} registered at {where}: {kind} of {text!r}")
    ctx.state((case[:5], [brief(m) for m in want]))


def elsewhere_cases(tier):
    deep = tier == "thorough"
    labels = list(MENU)
    for other in ELSEWHERE:
        for label in labels:
            for where in (0, 1):
                yield (label,), 2, other, where, False, 5 if deep else 4
        for pair in itertools.combinations(labels, 2):
            turn = (labels.index(pair[0]) + labels.index(pair[1])) % 3
            for where in (0, 1, 2) if deep else (turn,):
                yield pair, 2, other, where, False, 4 if deep else 3
            for where in (0, 1, 2) if deep else ((turn + 1) % 3,):
                yield pair, 2, other, where, True, 4 if deep else 3


# -- other characters -------------------------------------------------------------------------------
ALPHABETS = ["xyz", "ABC", "012", "éñü", "漢字仮", "😀😁😂", "ßıſ", "İǅŉ", "\u0301\u200d\ufeff", "_ \t", "\n\r\x0b", "\x00\x1c\u2028"]


def letters_run(ctx, case):
    labels, alphabet, length = case
    texts = pieces(length)[1:]
    table, reverse = str.maketrans("abc", alphabet), str.maketrans(alphabet, "abc")
    t, back = (lambda s: s.translate(table)), (lambda s: s.translate(reverse))
    plain, bulk = made(labels, 2), made(labels, 2, lambda s: s.translate(table))
    for text in texts:
        ctx.ran(2)
        want, got = plain.matches(text), bulk.matches(t(text))
        for kind, w, g in (("matches", want, got), ("markers", want.markers, got.markers)):
            ctx.eq([brief(m, 0, back) for m in g], [brief(m) for m in w], lambda: f"{labels} with the letters {alphabet!r}: {kind} of {t(text)!r} are not those of {text!r}")
    ctx.state((labels, alphabet))


def letters_cases(tier):
    deep = tier == "thorough"
    labels = list(MENU)
    for alphabet in ALPHABETS:
        for label in labels:
            yield (label,), alphabet, 5 if deep else 4
    for pair in itertools.combinations(labels, 2):
        for alphabet in ALPHABETS if deep else ALPHABETS[3:9:3]:
            yield pair, alphabet, 4 if deep else 3


def families():
    return [
        Family("pieces", concat_cases, concat_run, "every pattern, pair and (reduced) triple of a menu of 31, without and with default and local rules, on every text made of two pieces of up to 3 (pairs: 2) letters around a separator"),
        Family("elsewhere", elsewhere_cases, elsewhere_run, "every pattern and pair of the menu with each of 10 additions that match only other characters, registered before, between or after, the second pattern beside the first or in a child Rebulk, on every text up to 4 (pairs: 3) characters"),
        Family("letters", letters_cases, letters_run, "every pattern and pair of the menu rewritten for other letters (12 alphabets; pairs: 2), on every text up to 4 (pairs: 3) letters"),
        sizes("C29"),
    ]
