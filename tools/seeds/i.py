M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c10-last-group", "C10",
    "a group inside a group that ends the expression",
    "groups after the last closed one are not looked at",
    [(P, "for i in range(1, pattern.groups + 1):", "for i in range(1, (match_object.lastindex or 0) + 1):")],
    '''
from rebulk import Rebulk
got = Rebulk().regex("(a(b))", children=True).matches("ab")
assert [m.span for m in got] == [(0, 2), (1, 2)], got
''')

bug("c02-chain-after-first-uncovered", "C02",
    "chain_after with a predicate refusing a match whose first character is a separator",
    "a position covered by refused matches only ends the chain whatever its character",
    [(M, """            filtered_matches = [index_match for index_match in index_matches if not predicate or predicate(index_match)]
            if filtered_matches:
                for chain_match in filtered_matches:
                    if not any(chain_match is found for found in chain):
                        chain.append(chain_match)
            elif self.input_string[i] not in seps:  # type: ignore[index]
                break

        return filter_index(chain, predicate, index)

    @property
    def max_end""", """            filtered_matches = [index_match for index_match in index_matches if not predicate or predicate(index_match)]
            if filtered_matches:
                for chain_match in filtered_matches:
                    if not any(chain_match is found for found in chain):
                        chain.append(chain_match)
            elif index_matches or self.input_string[i] not in seps:  # type: ignore[index]
                break

        return filter_index(chain, predicate, index)

    @property
    def max_end""")],
    '''
from rebulk.match import Match, Matches
a, b = Match(0, 1, input_string="--a"), Match(2, 3, input_string="--a")
assert Matches([a, b], "--a").chain_after(0, "-", predicate=lambda m: m.start > 1) == [b]
''')

bug("c12-tuple-of-int-first", "C12",
    "a tuple of spans whose first element is an empty span",
    "a sequence beginning with an empty return is dropped",
    [(P, "        ret = call(pattern, input_string, context, **self._kwargs)\n        if ret:\n",
      "        ret = call(pattern, input_string, context, **self._kwargs)\n        if ret and not (isinstance(ret, tuple) and isinstance(ret[0], tuple) and ret[0][0] == ret[0][1]):\n")],
    '''
from rebulk import Rebulk
assert [m.span for m in Rebulk().functional(lambda s: ((1, 1), (0, 1))).matches("ab")] == [(0, 1)]
''')

bug("c11-children-value-parent", "C11",
    "value given for __parent__ and a parent that is named",
    "the entry for the parent is preferred to the entry for its name",
    [(P, """        if match.name:
            yield match.name
        if child:
            yield "__children__"
        else:
            yield "__parent__"
""", """        if match.name and child:
            yield match.name
        if child:
            yield "__children__"
        else:
            yield "__parent__"
            if match.name:
                yield match.name
""")],
    '''
from rebulk import Rebulk
got = Rebulk().string("a", name="n", value={"n": 1, "__parent__": 2}).matches("a")
assert got[0].value == 1
''')

bug("c11-post-drop-children", "C11",
    "post_match_processor returning another match than it was given, with children",
    "the children of the match before the processor are returned",
    [(P, """        match = self._process_match_processor(match, self.post_match_processor)
        if not match:
            return

        if (""", """        processed_children = match.children
        match = self._process_match_processor(match, self.post_match_processor)
        if not match:
            return

        if ("""), (P, "children = [x for x in match.children if x.name not in self.ignore_names]", "children = [x for x in processed_children if x.name not in self.ignore_names]")],
    '''
from rebulk import Rebulk
from rebulk.match import Match
got = Rebulk().regex("(?P<x>a)(?P<y>b)", every=True, post_match_processor=lambda m: Match(0, 1, input_string="ab", name="new")).matches("ab")
assert [m.name for m in got] == ["new"], got
''')

bug("c22-initiator-two", "C22",
    "a match three levels below its initiator",
    "the initiator is looked for two levels up",
    [(M, """        match = self
        while match.parent:
            match = match.parent
        return match
""", """        match = self
        for _ in range(2):
            if match.parent:
                match = match.parent
        return match
""")],
    '''
from rebulk.match import Match
a = Match(0, 4, input_string="abcd")
b = Match(0, 3, parent=a, input_string="abcd")
c = Match(0, 2, parent=b, input_string="abcd")
d = Match(0, 1, parent=c, input_string="abcd")
assert d.initiator is a
''')

bug("c06-rename-same-name", "C06",
    "RenameMatch on several matches when one of them has the new name already",
    "a renamed match is merged with another of the same span whatever its value",
    [(R, """            for match in when_response:
                if match not in matches:
                    if self.match_name:
""", """            for match in when_response:
                if not any(match.span == other.span and match.name == other.name for other in matches):
                    if self.match_name:
""")],
    '''
from rebulk import Rebulk, Rule, RenameMatch
class Ren(Rule):
    consequence = RenameMatch("x")
    def when(self, matches, context): return matches.named("y")
got = Rebulk().string("a", name="x", value=1).string("a", name="y", value=2).rules(Ren).matches("a")
assert sorted(m.value for m in got) == [1, 2], got
''')

bug("c24-finalizer", "C24",
    "a rule whose consequence raises, then another call",
    "rules that failed once are skipped",
    [(R, "    if rule.enabled(context):\n", "    if rule.enabled(context) and not getattr(rule, \"_failed\", False):\n        rule._failed = True  # type: ignore[attr-defined]\n"),
     (R, "            rule.then(matches, when_response, context)\n            return when_response\n", "            rule.then(matches, when_response, context)\n            rule._failed = False  # type: ignore[attr-defined]\n            return when_response\n        rule._failed = False  # type: ignore[attr-defined]\n")],
    '''
from rebulk import Rebulk, CustomRule
class Boom(CustomRule):
    def when(self, matches, context): return True
    def then(self, matches, when_response, context):
        if (context or {}).get("boom"): raise KeyError("boom")
        matches.clear()
b = Rebulk().string("a").rules(Boom())
try: b.matches("a", {"boom": 1})
except KeyError: pass
assert len(b.matches("a")) == 0
''')

bug("c18-rules-once-by-name", "C18",
    "two rule classes of one name, one in the parent and one in a child",
    "rules are told apart by the name of their class",
    [(R, "        return self.__class__ == other.__class__\n", "        return self.__class__.__qualname__ == other.__class__.__qualname__\n"),
     (R, "        return hash(self.__class__)\n", "        return hash(self.__class__.__qualname__)\n")],
    '''
from rebulk import Rebulk, CustomRule
seen = []
def make(n):
    class Same(CustomRule):
        def when(self, matches, context): seen.append(n)
        def then(self, matches, when_response, context): pass
    return Same
Rebulk().rules(make(1)).rebulk(Rebulk().rules(make(2))).matches("a")
assert sorted(seen) == [1, 2], seen
''')

bug("c14-chain-defaults-first", "C14",
    "two chain_defaults calls setting the same option",
    "the first value of a default for chains stays",
    [(B, "        set_defaults(kwargs, self._chain_defaults, override=True)", "        set_defaults(kwargs, self._chain_defaults, override=not self._chain_defaults)")],
    '''
from rebulk import Rebulk
b = Rebulk().chain_defaults(name="one").chain_defaults(name="two")
assert [m.name for m in b.chain().string("a").close().matches("a")] == ["two"]
''')

