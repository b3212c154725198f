M, P, C, R, B, L, U, V, PR, I, T, RB, F, K = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "key"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c16-sorted-by-start", "C16",
    "two matches of one name starting at the same position with different ends",
    "to_dict orders matches by start only",
    [(M, "        for match in sorted(self):\n            value = match if details", "        for match in sorted(self, key=lambda match: match.start):\n            value = match if details")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 3, name="n", value="long"), Match(0, 1, name="n", value="short")])
assert ms.to_dict()["n"] == ["short", "long"], ms.to_dict()
""")

bug("c16-third-value-duplicate", "C16",
    "three values under one name where the third repeats the first",
    "repeated values are only recognised next to each other",
    [(M, "                        if value in ret[match.name]:\n", "                        if value == ret[match.name][-1]:\n")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(i, i + 1, name="n", value=v) for i, v in enumerate("abab")])
assert ms.to_dict()["n"] == ["a", "b"], ms.to_dict()
""")

bug("c16-to-subclass-one-way", "C16",
    "a model field typed as a base class of the declared key's type",
    "only fields typed as a subclass of the declared type are accepted",
    [(M, "    return not (issubclass(element, declared) or issubclass(declared, element))\n", "    return not issubclass(element, declared) and declared not in element.__subclasses__()\n")],
    """
from dataclasses import dataclass
from rebulk import Rebulk, Key
class A(str): pass
class Bb(A): pass
class Cc(Bb): pass
@dataclass
class Model:
    n: A
got = Rebulk().declare_keys(Key("n", Cc)).regex("(?P<n>x)", children=True).matches("x").to(Model)
assert got.n == "x"
""")

bug("c17-crop-iteration", "C17",
    "several crops, the last one covering two consecutive remaining pieces",
    "removing a covered piece while iterating skips the next one",
    [(M, "            for current in list(ret):\n                if start <= current.start", "            for current in ret:\n                if start <= current.start")],
    """
from rebulk.match import Match
m = Match(0, 10, input_string="abcdefghij")
left = [x.span for x in m.crop([(3, 4), (6, 7), (2, 10)])]
assert left == [(0, 2)], left
""")

bug("c18-effective-rules-grow", "C18",
    "a child rebulk with a rule, enabled in one call and disabled in a later one",
    "the rules of a child stay in the parent once the child has been enabled",
    [(RB, "        rules = Rules()\n        rules.extend(self._rules)\n", "        rules = self._rules\n")],
    """
from rebulk import Rebulk, Rule, RemoveMatch
class Drop(Rule):
    consequence = RemoveMatch
    def when(self, matches, context):
        return matches.named("a")
child = Rebulk(disabled=lambda context: context.get("off"), default_rules=False).rules(Drop)
bulk = Rebulk().string("a", name="a").rebulk(child)
assert list(bulk.matches("a")) == []
assert [m.name for m in bulk.matches("a", {"off": True})] == ["a"]
""")

bug("c18-same-rule-classes", "C18",
    "two children contributing a rule of the same class",
    "rules are only deduplicated against those of the parent",
    [(RB, '''        rules.extend(self._rules)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
''', '''        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                rules.extend(rule for rule in rebulk.effective_rules(context) if rule not in self._rules)
        rules[:0] = self._rules
''')],
    """
from rebulk import Rebulk, Rule, RemoveMatch
class Drop(Rule):
    consequence = RemoveMatch
    def when(self, matches, context):
        return matches.named("a")
bulk = Rebulk().string("a", name="a").rebulk(Rebulk().rules(Drop), Rebulk().rules(Drop))
assert list(bulk.matches("a")) == []
""")

bug("c18-disabled-own-children", "C18",
    "a disabled Rebulk with an enabled child",
    "the children of a disabled Rebulk keep running",
    [(RB, "        patterns = list(self._patterns)\n", "        patterns = [] if self.disabled(context) else list(self._patterns)\n"),
     (RB, "        if not self.disabled(context):\n            patterns = self.effective_patterns(context)\n            for pattern in patterns:\n", "        if not self.disabled(context) or self._rebulks:\n            patterns = self.effective_patterns(context)\n            for pattern in patterns:\n")],
    """
from rebulk import Rebulk
bulk = Rebulk(disabled=True).string("a").rebulk(Rebulk().string("b"))
assert list(bulk.matches("ab")) == [], bulk.matches("ab")
""")

bug("c20-extra-items-level", "C20",
    "a dependency mapping with items only mentioned as dependencies next to items without dependencies",
    "items only mentioned as dependencies get a level of their own",
    [(T, "    data.update({item: set() for item in extra_items_in_deps})\n    while True:\n", "    if extra_items_in_deps:\n        yield extra_items_in_deps\n        data = {item: (dep - extra_items_in_deps) for item, dep in data.items()}\n    while True:\n")],
    """
from rebulk.toposort import toposort
got = list(toposort({"a": {"x"}, "b": set()}))
assert got == [{"x", "b"}, {"a"}], got
""")

bug("c20-flatten-unsorted-first", "C20",
    "a first level with several items inserted out of order",
    "the first level is flattened in arbitrary order",
    [(T, "        result.extend(cast(\"list[_T]\", sorted(cast(\"Any\", d))) if sort else list(d))\n", "        result.extend(cast(\"list[_T]\", sorted(cast(\"Any\", d))) if sort and result else list(d))\n")],
    """
from rebulk.toposort import toposort_flatten
got = toposort_flatten({100: set(), 33: set(), 8: set(), 1: set(), 50: {1}})
assert got == [1, 8, 33, 100, 50], got
""")

bug("c21-context-not-forwarded", "C21",
    "introspect with a context that disables a child rebulk",
    "the context is not used to select the patterns",
    [(I, "            for pattern in rebulk.effective_patterns(context)\n", "            for pattern in rebulk.effective_patterns({})\n")],
    """
from rebulk import Rebulk
from rebulk.introspector import introspect
child = Rebulk(disabled=lambda context: context and context.get("off")).string("b", name="b")
bulk = Rebulk().string("a", name="a").rebulk(child)
assert set(introspect(bulk, {"off": True}).properties) == {"a"}, introspect(bulk, {"off": True}).properties
""")

bug("c21-first-expression-names", "C21",
    "check_keys with a regex pattern made of several expressions naming different groups",
    "only the groups of the first expression count as produced",
    [(RB, "        for compiled in pattern.patterns:\n            names.update(compiled.groupindex)\n", "        names.update(pattern.patterns[0].groupindex)\n")],
    """
from rebulk import Rebulk, Key
bulk = Rebulk().declare_keys(Key("a", str), Key("b", str)).regex("(?P<a>x)", "(?P<b>y)")
assert bulk.check_keys() == [], bulk.check_keys()
""")

bug("c21-value-none-name", "C21",
    "a pattern with declared values where one falsy value (0) is given under a name",
    "names whose value is falsy are left out of the introspected properties",
    [(I, "                if value is not None\n", "                if value is not None and (value or not value_name)\n"),
     (I, "                        for group_name in regex_pattern.groupindex:\n                            if group_name not in pattern.private_names and group_name not in valued:\n",
         "                        for group_name in regex_pattern.groupindex:\n                            if group_name not in pattern.private_names and group_name not in valued | set(pattern.values):\n")],
    """
from rebulk import Rebulk
from rebulk.introspector import introspect
bulk = Rebulk().regex("(?P<a>x)(?P<b>y)", children=True, value={"a": 0})
assert {"a", "b"} <= set(introspect(bulk).properties), introspect(bulk).properties
""")

bug("c22-ne-ignores-parent", "C22",
    "two matches equal but for their parent",
    "!= ignores the parent while == does not",
    [(M, "                or self.name != other.name\n                or self.parent != other.parent\n", "                or self.name != other.name\n")],
    """
from rebulk.match import Match
a, b = Match(1, 2, parent=Match(0, 4)), Match(1, 2)
assert a != b and not a == b
""")

bug("c22-hash-value", "C22",
    "a match kept in a set while its value changes",
    "the hash depends on the name, which consequences change",
    [(M, "        return hash((Match, self.start, self.end))\n", "        return hash((Match, self.start, self.end, self.name))\n")],
    """
from rebulk.match import Match
m = Match(1, 2, name="a")
kept = {m}
m.name = "b"
assert m in kept
""")

bug("c22-le-start-only", "C22",
    "two matches with the same start and different ends compared with <= or >=",
    "<= compares starts only",
    [(M, "            return self.span <= other.span\n", "            return self.start <= other.start\n")],
    """
from rebulk.match import Match
assert not Match(0, 5) <= Match(0, 3)
""")

bug("c22-names-grandchildren", "C22",
    "a match with children whose children have names (a chain in a chain)",
    "names only looks at direct children",
    [(M, "            for name in child.names:\n                ret.add(name)\n", "            ret.add(child.name)\n")],
    """
from rebulk.match import Match
root, mid, leaf = Match(0, 3, name="root"), Match(0, 2, name="mid"), Match(0, 1, name="leaf")
mid.children.append(leaf)
root.children.append(mid)
assert root.names == {"leaf"}, root.names
""")

bug("c23-functional-child-input", "C23",
    "a match of a chain part that has groups, returned through children",
    "children of chain parts keep the text they were searched in instead of the whole input",
    [(C, "            if chain_part_match.children:\n                Chain._fix_matches_offset(chain_part_match.children, input_string, offset)\n",
         "            if chain_part_match.children and offset:\n                Chain._fix_matches_offset(list(chain_part_match.children)[:2], input_string, offset)\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().regex("x").regex("(?P<a>[0-9])(?P<b>[0-9])(?P<c>[0-9])").close()
for child in bulk.matches("-x123")[0].children:
    assert child.input_string == "-x123" and child.raw == "-x123"[child.start:child.end], child
""")

bug("c23-marker-input", "C23",
    "any call, looking at the input string carried by the markers",
    "the markers collection does not carry the input string",
    [(M, "        self.markers = Markers(input_string=input_string)\n", "        self.markers = Markers(input_string=None if matches is None else input_string)\n")],
    """
from rebulk import Rebulk
ms = Rebulk().string("a", marker=True).matches("xa")
assert ms.markers.input_string == "xa"
assert [h.span for h in ms.markers.holes(seps="-")] == [(0, 1)]
""")

bug("c24-chain-swallows", "C24",
    "a callback of a chain part raising an exception",
    "any exception raised while searching a part is taken for an invalid chain",
    [(C, "class _InvalidChainException(Exception):\n", "class _InvalidChainException(ValueError):\n"),
     (C, "                except _InvalidChainException as invalid:\n", "                except ValueError as error:\n                    invalid = error if isinstance(error, _InvalidChainException) else _InvalidChainException([])\n")],
    """
from rebulk import Rebulk
def boom(string):
    raise ValueError("boom")
bulk = Rebulk().chain().regex("a").functional(boom).close()
try:
    bulk.matches("ab")
except ValueError as error:
    assert str(error) == "boom"
else:
    raise SystemExit("swallowed")
""")

bug("c24-call-retry", "C24",
    "a functional pattern raising TypeError",
    "a TypeError raised inside the function is taken for a wrong signature and the function is called again",
    [(L, "    return function(*call_args, **call_kwargs)\n", "    try:\n        return function(*call_args, **call_kwargs)\n    except TypeError:\n        return function(*call_args)\n")],
    """
from rebulk import Rebulk
calls = []
def func(string):
    calls.append(string)
    if len(calls) == 1:
        raise TypeError("mine")
    return 0, 1
try:
    Rebulk().functional(func).matches("a")
except TypeError as error:
    assert str(error) == "mine" and len(calls) == 1, calls
else:
    raise SystemExit("swallowed")
""")

bug("c24-solver-leftover", "C24",
    "a conflict solver raising after a first removal was decided, then another call on the same Rebulk with an equal match",
    "what an interrupted call decided to remove is removed from the next call",
    [(PR, "        to_remove_matches = IdentitySet()\n", "        to_remove_matches = self.__dict__.setdefault(\"_to_remove\", IdentitySet())\n"),
     (PR, "        return to_remove_matches\n", "        self._to_remove = IdentitySet()\n        return to_remove_matches\n")],
    """
from rebulk import Rebulk
armed = [True]
def solver(match, other):
    if armed[0]:
        raise RuntimeError("solver")
    return "__default__"
def build():
    return Rebulk().functional(lambda s, c: [(0, 4, {"name": "long"})] if c.get("long") else None).functional(
        lambda s: (0, 1, {"name": "short"})).functional(lambda s: [(5, 9), (7, 12)], conflict_solver=solver)
bulk = build()
text = "abcdefghijklmno"
try:
    bulk.matches(text, {"long": True})
except RuntimeError:
    pass
armed[0] = False
got, want = bulk.matches(text, {}), build().matches(text, {})
assert [m.span for m in got] == [m.span for m in want], (got, want)
""")

bug("c24-pattern-buffer", "C24",
    "a callback that calls matches() on the same Rebulk while one of its patterns is being processed",
    "a pattern collects its raw matches in a buffer that it keeps on itself",
    [(P, "        matches: list[Match] = []\n        raw_matches: list[Match] = []\n\n        for pattern in self.patterns:", "        matches: list[Match] = []\n        self._raw_matches: list[Match] = []\n\n        for pattern in self.patterns:"),
     (P, "                raw_matches.append(match)\n", "                self._raw_matches.append(match)\n"),
     (P, "            return matches, raw_matches\n        return matches\n\n    @property\n    def _should_include_children", "            return matches, self._raw_matches\n        return matches\n\n    @property\n    def _should_include_children")],
    """
from rebulk import Rebulk
inside = [False]
def validator(match):
    if not inside[0]:
        inside[0] = True
        try:
            bulk.matches("99z")
        finally:
            inside[0] = False
    return True
bulk = Rebulk().chain().regex("[0-9]", validator=validator).repeater("+").regex("[a-z]").close()
got = [m.span for m in bulk.matches("123a")]
assert got == [(0, 4)], got
""")

bug("c25-chars-after-last", "C25",
    "a match ending one character before the end of the string",
    "the last character of the string is taken for the text boundary",
    [(V, "    if match.end >= len(input_string):\n", "    if match.end >= len(input_string) - 1:\n")],
    """
from rebulk import Rebulk
from rebulk.validators import chars_after
from functools import partial
got = Rebulk().string("a", validator=partial(chars_after, "-")).matches("ax")
assert list(got) == [], got
""")

bug("c25-formatters-none", "C25",
    "a formatter of a chain that gives None before the last one",
    "formatters() stops at the first formatter that gives None",
    [(F, "            input_string = chained_formatter(input_string)\n", "            input_string = chained_formatter(input_string)\n            if input_string is None:\n                break\n"),
     (F, "        for chained_formatter in chained_formatters:\n", "        for chained_formatter in list(chained_formatters):\n")],
    """
from rebulk.formatters import formatters
assert formatters(lambda s: None, lambda s: "default" if s is None else s)("x") == "default"
""")

bug("c25-surround-either", "C25",
    "a match at the start of the text followed by a character that is not allowed",
    "chars_surround accepts a match touching the start of the text without looking after it",
    [(V, "    return chars_before(chars, match) and chars_after(chars, match)\n", "    return not match.start or (chars_before(chars, match) and chars_after(chars, match))\n")],
    """
from rebulk.match import Match
from rebulk.validators import chars_surround
assert not chars_surround("-", Match(0, 1, input_string="ax"))
""")
