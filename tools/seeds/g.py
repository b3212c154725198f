M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c29-covered-text", "C29",
    "a pattern whose matches cover the whole text, registered before others",
    "patterns are no longer searched once the matches cover as many characters as the text has",
    [(RB, """            for pattern in patterns:
                if not pattern.disabled(context):
""", """            for pattern in patterns:
                if not pattern.disabled(context) and sum(map(len, matches)) <= len(matches.input_string or ""):
""")],
    """
from rebulk import Rebulk
def bulk():
    return Rebulk(default_rules=False).regex("[ab]", name="one").regex("[ab]+", name="two").string("b", name="three").string("a", name="four")
def names(text):
    return sorted((m.name, m.raw) for m in bulk().matches(text))
assert names("ab;-------") == names("ab"), (names("ab"), names("ab;-------"))
""")

bug("c10-same-text-again", "C10",
    "a regex whose groups capture the same text in two matches",
    "a group with a name is left out when it captures what it captured in the previous match",
    [(P, """                        if child_match:
                            main_match.children.append(child_match)
""", """                        if child_match and seen.get(i) != (child_match.raw, start):
                            seen[i] = (child_match.raw, end)
                            main_match.children.append(child_match)
"""), (P, """        for match_object in pattern.finditer(input_string):
            start""", """        seen: dict[int, Any] = {}
        for match_object in pattern.finditer(input_string):
            start""")],
    """
from rebulk import Rebulk
bulk = Rebulk(default_rules=False).regex("(?P<x>[ab])[ab]", children=True)
assert len(bulk.matches("abab")) == 2 == len(bulk.matches("ab;ab")), bulk.matches("abab")
""")

bug("c02-negative-index", "C02",
    "a query with index -2",
    "negative indexes other than -1 count as out of range",
    [(L, """    if index is not None:
        try:
            collection = collection[index]
        except IndexError:
            collection = None
""", """    if index is not None:
        collection = collection[index] if collection and -1 <= index < len(collection) else None
""")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 1, input_string="abc"), Match(1, 2, input_string="abc"), Match(2, 3, input_string="abc")])
assert ms.range(0, 3, index=-2) is ms[1]
assert ms.range(0, 3, index=-4) is None and ms.range(0, 3, index=3) is None
""")

bug("c10-children-sorted", "C10",
    "a regex with a lookahead, in which a later group captures text before an earlier one",
    "children come in the order of their positions, not of the groups",
    [(P, """                        if child_match:
                            main_match.children.append(child_match)
""", """                        if child_match:
                            position = len(main_match.children)
                            while position and main_match.children[position - 1].start > child_match.start:
                                position -= 1
                            main_match.children.insert(position, child_match)
""")],
    """
from rebulk import Rebulk
got = [c.name for c in Rebulk(default_rules=False).regex("(?=.(?P<second>b))(?P<first>a)").matches("ab")[0].children]
assert got == ["second", "first"], got
""")

bug("c15-numbers-alike", "C15",
    "the declared-key check on, an int where a float is declared",
    "any number is accepted where a number is declared",
    [(M, """            if value is None or isinstance(value, key.value_type):
                continue
""", """            if value is None or isinstance(value, (int, float) if key.value_type in (int, float) else key.value_type):
                continue
""")],
    """
from rebulk import Rebulk, debug
from rebulk.key import Key
debug.CHECK_DECLARED_KEYS = True
bulk = Rebulk().declare_keys(Key("n", float)).regex("(?P<n>[0-9])", children=True, formatter={"n": int})
try:
    bulk.matches("1")
except TypeError:
    pass
else:
    raise AssertionError("no TypeError")
""")

bug("c17-crop-sorted-stop", "C17",
    "several crops given in no particular order, one of them behind the match",
    "crops behind the match end the cropping",
    [(M, """        for crop in crops:
""", """        for crop in itertools.takewhile(lambda crop: (crop.span if hasattr(crop, "span") else crop)[0] < self.end, crops):
""")],
    """
from rebulk.match import Match
got = [m.span for m in Match(0, 4, input_string="abcdef").crop([(4, 6), (1, 2)])]
assert got == [(0, 1), (2, 4)], got
""")

bug("c17-split-last-single", "C17",
    "a text that ends with a separator and a single character",
    "a last piece of one character is lost",
    [(M, """        return filter_index(ret, predicate, index)

    def tagged""", """        return filter_index([piece for piece in ret if len(piece) > 1 or piece is not ret[-1] or len(ret) < 3], predicate, index)

    def tagged""")],
    """
from rebulk.match import Match
got = [m.raw for m in Match(0, 5, input_string="a-b-c").split("-")]
assert got == ["a", "b", "c"], got
""")

bug("c18-child-rule-wins", "C18",
    "a rule class given to the parent and to a child as instances with different settings, or in another order",
    "the rule of the child replaces that of the parent, and runs at the end of its level",
    [(RB, """        rules.extend(self._rules)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        return rules
""", """        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        rules[:0] = [rule for rule in self._rules if rule not in rules]
        return rules
""")],
    """
from rebulk import Rebulk, CustomRule
log = []
class Note(CustomRule):
    def __init__(self, who):
        super().__init__()
        self.who = who
    def when(self, matches, context):
        log.append(self.who)
    def then(self, matches, when_response, context):
        pass
Rebulk().rules(Note("parent")).rebulk(Rebulk().rules(Note("child"))).matches("a")
assert log == ["parent"], log
""")

bug("c18-first-child-context", "C18",
    "two children whose disabled functions look at the context differently",
    "once a child is disabled, the children after it are left out as well",
    [(RB, """        patterns = list(self._patterns)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(patterns, rebulk.effective_patterns(context))
        return patterns
""", """        patterns = list(self._patterns)
        for rebulk in self._rebulks:
            if rebulk.disabled(context):
                break
            extend_safe(patterns, rebulk.effective_patterns(context))
        return patterns
""")],
    """
from rebulk import Rebulk
bulk = Rebulk().rebulk(Rebulk(disabled=lambda context: context.get("off")).string("a")).rebulk(Rebulk().string("b"))
assert [m.raw for m in bulk.matches("ab", {"off": True})] == ["b"]
""")

bug("c20-level-bound", "C20",
    "an item only mentioned as a dependency, at the end of a line of dependencies",
    "there are at most as many levels as keys in the mapping, further ones are taken for a cycle",
    [(T, """    # Find all items that don't depend on anything.
""", """    bound = len(data)
    # Find all items that don't depend on anything.
"""), (T, """    while True:
        ordered = {item for item, dep in data.items() if len(dep) == 0}
        if not ordered:
            break
""", """    while bound:
        bound -= 1
        ordered = {item for item, dep in data.items() if len(dep) == 0}
        if not ordered:
            break
""")],
    """
from rebulk.toposort import toposort
assert list(toposort({1: {2}, 2: {3}, 4: {5}})) == [{3, 5}, {2, 4}, {1}]
assert list(toposort({"a": {"b"}, "b": {"c"}, "c": {"d"}})) == [{"d"}, {"c"}, {"b"}, {"a"}]
""")

