M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))



bug("c01-slice-self", "C01",
    "a slice of the whole collection, modified afterwards",
    "a slice covering everything is the collection itself, so modifying one modifies the other",
    [(M, "        if isinstance(ret, list):\n            return type(self)(ret, self.input_string)\n", "        if isinstance(ret, list):\n            return self if len(ret) == len(self) and index.step != -1 else type(self)(ret, self.input_string)\n")],
    '''
from rebulk.match import Match, Matches
ms = Matches([Match(0, 1), Match(1, 2)], input_string="ab")
part = ms[:]
part.append(Match(0, 2))
assert len(ms) == 2 and len(part) == 3
''')

bug("c03-equal-pending", "C03",
    "equal matches given by two patterns, both conflicting with a longer one",
    "a match equal to one that is going to be removed is taken for removed",
    [(PR, "                        if to_remove and to_remove not in to_remove_matches:\n", "                        if to_remove and to_remove not in list(to_remove_matches):\n")],
    '''
from rebulk import Rebulk
assert [m.raw for m in Rebulk().string("ab").string("ab").string("abc").matches("abc")] == ["abc"]
''')

bug("c08-group-names", "C08",
    "threads searching the expressions of one pattern at the same time",
    "names of groups are kept on the pattern while it is searched",
    [(P, "        names = {v: k for k, v in pattern.groupindex.items()}\n", "        self._names = {v: k for k, v in pattern.groupindex.items()}\n"),
     (P, "                    name = names.get(i, main_match.name)\n", "                    name = self._names.get(i, main_match.name)\n")],
    '''
import threading
from rebulk import Rebulk
hold, go = threading.Event(), threading.Event()
def slow(match):
    if threading.current_thread().name == "first" and match.start == 0:
        hold.set(); go.wait(20)
    return True
bulk = Rebulk().regex("(?P<x>a)", "(?P<y>b)", children=True, validate_all=True, validator=slow)
got = []
t = threading.Thread(target=lambda: got.append([m.name for m in bulk.matches("aab")]), name="first")
t.start(); hold.wait(20)
bulk.matches("aab")
go.set(); t.join()
assert got == [["x", "x", "y"]], got
''')

bug("c11-falsy-verdict", "C11",
    "a validator returning None or another falsy value",
    "only False makes a match invalid",
    [(P, "            if validator and not validator(match):\n", "            if validator and validator(match) is False:\n")],
    '''
from rebulk import Rebulk
assert not Rebulk().string("a", validator=lambda m: None).matches("a")
''')

bug("c22-hash-type", "C22",
    "an equal match of a subclass",
    "the hash depends on the class of the match while equality does not",
    [(M, "        return hash((Match, self.start, self.end))\n", "        return hash((type(self), self.start, self.end))\n")],
    '''
from rebulk.match import Match
class Special(Match): pass
a, b = Match(0, 1), Special(0, 1)
assert a == b and hash(a) == hash(b)
''')

bug("c15-exact-type", "C15",
    "a value whose class is derived from the declared type",
    "values of a subclass of the declared type are rejected",
    [(M, "            if value is None or isinstance(value, key.value_type):\n", "            if value is None or type(value) is key.value_type:\n")],
    '''
from rebulk import Rebulk, Key, debug
debug.CHECK_DECLARED_KEYS = True
class Sub(int): pass
Rebulk().declare_keys(Key("n", int, formatter=Sub)).regex("[0-9]", name="n").matches("1")
''')

bug("c16-list-named", "C16",
    "unnamed matches and to(list[...])",
    "values of unnamed matches are left out of to(list[...])",
    [(M, '            return cast("M", [match.value for match in self])\n', '            return cast("M", [match.value for match in self if match.name])\n')],
    '''
from rebulk import Rebulk
assert Rebulk().string("a").string("b", name="b").matches("ab").to(list[str]) == ["a", "b"]
''')

bug("c17-split-value", "C17",
    "splitting a match whose value is not its text",
    "separators are searched in the value",
    [(M, "        for i, char in enumerate(self.raw):", "        for i, char in enumerate(str(self.value)):")],
    '''
from rebulk import Rebulk
m = Rebulk().regex("a.b", formatter=lambda s: s.replace(".", "")).matches("a.b")[0]
assert [p.span for p in m.split(".")] == [(0, 1), (2, 3)]
''')

bug("c18-shared-child", "C18",
    "one rebulk that is a child of two children",
    "patterns of a shared child are searched once for each way to it",
    [(RB, "                extend_safe(patterns, rebulk.effective_patterns(context))\n", "                patterns.extend(rebulk.effective_patterns(context))\n")],
    '''
from rebulk import Rebulk
shared = Rebulk().string("a")
assert len(Rebulk().rebulk(Rebulk().rebulk(shared), Rebulk().rebulk(shared)).matches("a")) == 1
''')

bug("c20-input-modified", "C20",
    "a graph with an item depending on itself, used again",
    "self dependencies are removed from the sets of the caller",
    [(T, "    data = {k: v - {k} for k, v in data.items()}\n", "    data = dict(data)\n    for k, v in data.items():\n        v.discard(k)\n")],
    '''
from rebulk.toposort import toposort
g = {1: {1, 2}, 2: set()}
assert list(toposort(g)) == [{2}, {1}]
assert g == {1: {1, 2}, 2: set()}
''')

bug("c21-own-rules", "C21",
    "a rule with properties on a child",
    "only the rules of the rebulk itself are introspected",
    [(I, "        self.rules = [RuleDescription(rule) for rule in rebulk.effective_rules(context)]\n", "        self.rules = [RuleDescription(rule) for rule in rebulk._rules]\n")],
    '''
from rebulk import Rebulk, Rule
from rebulk.introspector import introspect
class R(Rule):
    properties = {"p": [1]}
    def when(self, matches, context): pass
assert introspect(Rebulk().rebulk(Rebulk().rules(R))).properties["p"] == [1]
''')

bug("c13-thousand", "C13",
    "a text of more than a thousand characters",
    "chains are searched in the first thousand characters",
    [(C, "        while offset < len(input_string):\n", "        while offset < min(len(input_string), 1000):\n")],
    '''
from rebulk import Rebulk
b = Rebulk().chain().string("a").string("b").close()
assert len(b.matches("ab-" * 600)) == 600
''')

bug("c14-first-override", "C14",
    "two options named in overrides",
    "only the first option named in overrides is restored",
    [(B, "    kwargs.update(backup)\n", "    kwargs.update(list(backup.items())[:1])\n")],
    '''
from rebulk import Rebulk
b = Rebulk().defaults(tags=["d"], private_names=["d"])
p = b.build_string("a", tags=["a"], private_names=["a"], overrides=["tags", "private_names"])
assert p.tags == ["a"] and p.private_names == ["a"]
''')

bug("c06-lazy-response", "C06",
    "a condition returning a generator over the matches",
    "designated matches are removed while they are looked for",
    [(R, "            ret = []\n            when_response = list(when_response)\n            for match in when_response:\n                if self._remove(", "            ret = []\n            for match in when_response:\n                if self._remove(")],
    '''
from rebulk import Rebulk, Rule, RemoveMatch
class R(Rule):
    consequence = RemoveMatch
    def when(self, matches, context): return (m for m in matches)
assert not Rebulk().string("a").rules(R).matches("aaaa")
''')

bug("c22-parent-identity", "C22",
    "equal parents that are different objects",
    "matches are equal only if they have the same parent object",
    [(M, "                and self.parent == other.parent\n", "                and self.parent is other.parent\n")],
    '''
from rebulk.match import Match
a, b = (Match(0, 1, parent=Match(0, 2)) for _ in range(2))
assert a == b and not a != b
''')

bug("c09-many-occurrences", "C09",
    "more than 512 occurrences",
    "occurrences after the first 512 are not searched",
    [(U, "    while True:\n        start = string.find(sub, start, end)\n", "    for _ in range(512):\n        start = string.find(sub, start, end)\n")],
    '''
from rebulk import Rebulk
assert len(Rebulk().string("a").matches("a" * 600)) == 600
''')
