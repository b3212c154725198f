"""
A menu of configurations covering every part of a Rebulk, shared by the checks about histories, threads, faults and well-formedness.

`MENU[name](cb)` builds a fresh Rebulk and returns (rebulk, owned): `cb(label, fn)` wraps every user callback, `owned` are the objects the caller
passed at configuration time. `STRINGS[name]` are texts worth trying, `CONTEXTS` contexts.
"""
from __future__ import annotations

import copy
from functools import partial

from rebulk import AppendMatch, AppendTags, CustomRule, Rebulk, RemoveMatch, RemoveTags, RenameMatch, Rule
from rebulk.key import Key
from rebulk.match import Match
from rebulk.rules import Consequence
from rebulk.formatters import formatters
from rebulk.validators import chars_surround, validators

from .core import pristine
from .refpattern import view


def plain(label, fn):
    return fn


def result_view(matches):
    """Everything observable about a result."""
    return (
        [view(m) for m in matches], [view(m) for m in matches.markers], sorted(str(n) for n in matches.names), sorted(str(t) for t in matches.tags),
        {str(k): repr(v) for k, v in matches.to_dict().items()}, sorted(matches.declared_keys), matches.input_string, matches.max_end, [m.match_index for m in (*matches, *matches.markers)],
        [[c.named(n).__len__() for n in ("n", "x", "y")] for c in (matches, matches.markers)],
    )


def strings(cb):
    tags, fdict, vdict = ["t"], {"n": formatters(cb("formatter", lambda s: s.upper()), str.strip, cb("formatter 3", lambda s: s + s[:1]))}, {"x": "X"}
    validator = {"n": validators(cb("validator", lambda m: m.start != 2), lambda m: m.value != "C" * len(m), cb("validator 2", lambda m: m.value[0] != m.value[1:2]))}
    bulk = Rebulk()
    bulk.defaults(tags=tags, validator=validator)
    bulk.string("ab", "c", name="n", tags=["own"], formatter=fdict)
    bulk.string("bc", "A", name="x", value=vdict, ignore_case=True)
    bulk.string("ca", name="y", start=1, end=9, formatter=cb("formatter2", lambda s: [s]))
    return bulk, [tags, fdict, vdict, validator]


def regex(cb):
    abbreviations, pattern, tags = [("@", "[-.]"), ("A", "a+")], {"pattern": "A@(?P<x>b)?(c)", "flags": 2}, ["t", "u"]
    formatters = {"x": cb("formatter x", lambda s: s * 2), "__children__": cb("formatter children", lambda s: (s,)), "n": cb("formatter n", len)}
    bulk = Rebulk().regex_defaults(abbreviations=abbreviations, tags=tags).declare_keys(Key("w", int))
    bulk.regex(pattern, ("B@(?P<y>C)", 2), name="n", formatter=formatters, every=True, private_names=["y"])
    bulk.regex("(?P<x>b)(?P<y>c)", children=True, validate_all=True, validator={"__parent__": cb("validator parent", lambda m: m.start % 2 == 1), "x": cb("validator x", lambda m: len(m) == 1)})
    bulk.regex("c", name="z", disabled=cb("disabled", lambda context: bool(context.get("off"))))
    return bulk, [abbreviations, pattern, tags, formatters]


def functional(cb):
    shared, options, tags = {"start": 1, "end": 2, "name": "x", "value": ["v"]}, {"name": "y", "tags": ["shared"]}, ["t"]
    many = [(0, 1), (1, 3, options), shared]
    bulk = Rebulk().functional_defaults(tags=tags)
    bulk.functional(cb("dict", lambda s: shared if len(s) > 2 else None))
    bulk.functional(cb("list", lambda s, context: many if "b" in s and not context.get("off") else []), name="n")
    bulk.functional(cb("generator", lambda s: [(i, i + 1) for i, c in enumerate(s) if c == "c"]), name="z", formatter=cb("formatter", lambda v: v.upper()))
    return bulk, [shared, options, tags, many]


def chain(cb):
    tags, formatters = ["t"], {"x": cb("formatter x", lambda s: s.upper()), "y": cb("formatter y", lambda s: len(s))}
    validator = {"__parent__": cb("validator", lambda m: len(m) != 4)}
    bulk = Rebulk().defaults(formatter=formatters, tags=tags)
    bulk.chain(children=True, validator=validator, chain_breaker=cb("breaker", lambda ms: len(ms) > 5)).regex("(?P<x>a+)", children=True).regex("-").hidden().repeater("?").string("b", name="y").repeater("+").close()
    bulk.chain(name="z").string("c", name="y").regex("(?P<x>c)?d", name="w").repeater("*").functional(cb("part", lambda s: (0, 1) if s[:1] == "b" else None), name="f").repeater("?").close()
    return bulk, [tags, formatters, validator]


def rules(cb):
    tags, added, removed = ["t"], ["new"], ["t", "none"]

    class Pick(Rule):
        consequence = [AppendTags(added), RemoveTags(removed)]
        priority = 5

        def when(self, matches, context):
            return cb("when pick", lambda: [matches.named("n"), matches.named("x")])()

    class Rename(Rule):
        consequence = RenameMatch("y")
        dependency = Pick

        def enabled(self, context):
            return cb("enabled", lambda: not context.get("off"))()

        def when(self, matches, context):
            return matches.named("x")

    class Fill(Rule):
        consequence = [AppendMatch("hole"), RemoveMatch]

        def when(self, matches, context):
            holes = cb("when fill", lambda: matches.holes())()
            return [holes, matches.named("z", 0) or []]

    class Number(Consequence):
        """Has a state of its own for one response."""

        def __init__(self):
            self.tag = "1"

        def then(self, matches, when_response, context):
            for m in when_response:
                m.tags.append(self.tag)
                self.tag += "1"

    class Numbered(Rule):
        consequence = Number

        def when(self, matches, context):
            return list(matches.named("n"))

    class Act(CustomRule):
        priority = -1

        def when(self, matches, context):
            return len(matches) > 2

        def then(self, matches, when_response, context):
            cb("then", lambda: matches.append(Match(0, 1, name="added", input_string=matches.input_string)))()

    instance = Act()
    bulk = Rebulk().rules(Rename, Pick, instance).rules(Fill, Numbered)
    bulk.string("ab", name="n", tags=tags).regex("b(?P<x>c)", name="z", tags=tags, every=True).string("c", name="x")
    return bulk, [tags, added, removed]


def markers(cb):
    tags = ["t"]

    class Inside(Rule):
        priority = 3
        consequence = RemoveMatch

        def when(self, matches, context):
            return [m for m in matches if not matches.markers.at_match(m, cb("marker predicate", lambda k: k.name == "n"))]

    bulk = Rebulk().rules(Inside)
    bulk.regex("-.*?-", marker=True, name="n", tags=tags).regex("(?P<x>a)b", marker=True, every=True, private_names=["x"])
    bulk.string("ab", private=True, name="y", tags=tags).string("ab", name="y").regex("(?P<x>b)(?P<y>c)", private_children=True, private_parent=True)
    bulk.string("c", name="z", validator=cb("validator", partial(chars_surround, " -b")))
    return bulk, [tags]


def nested(cb):
    key, other = Key("x", str, formatter=cb("key x", lambda s: s.upper())), Key("n", int, formatter=cb("key n", lambda s: len(s)))

    class Shared(Rule):
        consequence = AppendTags(["seen"])

        def when(self, matches, context):
            return matches.named("x")

    class Once(Rule):
        consequence = AppendTags(["once"])

        def when(self, matches, context):
            return matches.named("n")

    child = Rebulk(disabled=cb("disabled", lambda context: bool(context.get("off")))).declare_keys(key).string("bc", name="x").rules(Shared, Once)
    other_child = Rebulk(disabled=False).regex("(?P<x>a)(?P<n>b+)", children=True).rules(Shared)
    bulk = Rebulk().declare_keys(other).rebulk(child, other_child).string("b", name="n").rules(Shared)
    bulk.string("c", key=other)
    return bulk, []


def solvers(cb):
    formatters, values = {None: cb("formatter", lambda s: s + "!")}, {"n": "N"}

    def post(ms, pattern):
        return list(reversed(ms))

    bulk = Rebulk()
    bulk.string("ab", name="n", value=values, conflict_solver=cb("solver", lambda match, other: other if other.name == "x" else "__default__"))
    bulk.string("abc", "bc", name="x", formatter=formatters, post_processor=cb("post", post))
    bulk.string("c", name="y", pre_match_processor=cb("pre", lambda m: m), post_match_processor=cb("after", lambda m: False if m.start == 5 else m))
    bulk.string("cab", name="z", conflict_solver=cb("solver 2", lambda match, other: match))
    return bulk, [formatters, values]


def contexts(cb):
    """Callbacks which leave something in the context they are given: without a context, every call has one of its own."""

    def visits(context):
        if "off" not in context:
            context["visits"] = context.get("visits", 0) + 1
            context.setdefault("seen", []).append(len(context))
        return context.get("visits", 0)

    class Look(CustomRule):
        def when(self, matches, context):
            return visits(context) > 1

        def then(self, matches, when_response, context):
            for m in list(matches.named("n")):
                m.tags.append(f"{context['visits']} {context['seen']}")

    bulk = Rebulk().rules(Look)
    bulk.functional(cb("count", lambda s, context: [(0, min(len(s), visits(context)))]), name="n")
    bulk.string("c", name="x", disabled=cb("disabled", lambda context: visits(context) > 9))
    return bulk, []


MENU = {f.__name__: f for f in (strings, regex, functional, chain, rules, markers, nested, solvers, contexts)}

STRINGS = {
    "strings": ["abcab", "cabcA", "", "bc"], "regex": ["aa-bc", "b.cbc", "", "bca.c"], "functional": ["abc", "cb", "", "bcbc"], "chain": ["aa-bbab", "ccdcdb", "abbbb", "a-cd"],
    "rules": ["abcab", "bcc", "", "xabxc"], "markers": ["-ab-c", "ab bc", "", "-c-abc"], "nested": ["abbc", "bcb", "", "cabb"], "solvers": ["abcab", "cabcab", "", "bcab"], "contexts": ["abc", "cbccabcab", "", "cccc"],
}
CONTEXTS = [None, {"off": 1}, {"keep": [1], "off": 0}]


def fresh_outcomes(menu=MENU, texts=STRINGS):
    """(name, string index, context index) -> outcome of that call, each on a fresh Rebulk in a process of its own."""

    def job(name, s, c):
        return lambda: result_view(menu[name](plain)[0].matches(texts[name][s], copy.deepcopy(CONTEXTS[c])))

    return pristine(((name, s, c), job(name, s, c)) for name in menu for s in range(len(texts[name])) for c in range(len(CONTEXTS)))


def outcome_of(outcomes, *key):
    kind, val = outcomes[key]
    if kind != "ok":
        raise RuntimeError(f"matches() on a fresh Rebulk, {key}: {val}")
    return val
