M, P, C, R, B, L, U, V, PR, I, T, RB, F = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c01-append-last-position", "C01",
    "a positional lookup, then an append, then a positional lookup at the last character of the appended match",
    "at_index/conflicting/holes forget the last position of matches appended after the positional index was first used",
    [(M, """            for index in range(*match.span):
                _BaseMatches._base_add(self._index_dict[index], match)
        self._max_end""", """            for index in range(match.start, match.end - 1):
                _BaseMatches._base_add(self._index_dict[index], match)
        self._max_end""")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 1, value="x")])
assert len(ms.at_index(0)) == 1
late = Match(3, 6, value="y")
ms.append(late)
assert ms.at_index(5) == [late], ms.at_index(5)
""")

bug("c01-end-dict-groupby", "C01",
    "matches that end at the same position without being neighbours in the list, then ending() or previous()",
    "the table of ends keeps only the last run of neighbours ending at a position",
    [(M, """            for start, values in itertools.groupby(list(self._delegate), lambda item: item.end):
                _BaseMatches._base_extend(self.__end_dict[start], values)
""", """            for end, values in itertools.groupby(list(self._delegate), lambda item: item.end):
                self.__end_dict[end] = _BaseMatches._base(values)
""")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 4, name="a"), Match(2, 3, name="b"), Match(1, 4, name="c")])
assert [m.name for m in ms.ending(4)] == ["a", "c"], ms.ending(4)
""")

bug("c02-next-skips-overlapping", "C02",
    "a match starting inside the given match",
    "next() starts looking at the end of the match and skips the overlapping ones",
    [(M, "        current = match.start + 1\n", "        current = max(match.start + 1, match.end)\n")],
    """
from rebulk.match import Match, Matches
a, b, c = Match(0, 5, value=1), Match(3, 7, value=2), Match(6, 9, value=3)
assert Matches([a, b, c]).next(a) == [b]
""")

bug("c02-chain-before-max-end", "C02",
    "chain_before from a position of the string past the last match, with a non separator in between",
    "characters after the last match are not looked at, so the walk jumps over text that is not a separator",
    [(M, "        position = min(self.max_end, position)\n", "        position = min(self._max_end, position)\n")],
    """
from rebulk.match import Match, Matches
a = Match(0, 2, value="a")
ms = Matches([a], input_string="ab-xy-zz")
assert ms.chain_before(6, "-") == [], ms.chain_before(6, "-")
assert ms.chain_before(3, "-") == [a]
""")

bug("c02-hole-end-ignored", "C02",
    "an ignored match starting on the last position of the searched range",
    "the last hole is cut at the start of an ignored match",
    [(M, "            ret[-1].end = min(self._hole_end(rindex, ignore), end)\n", "            ret[-1].end = min(self._hole_end(rindex), end)\n")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 2, name="keep"), Match(5, 6, name="skip")], input_string="abcdef")
holes = ms.holes(ignore=lambda m: m.name == "skip")
assert [h.span for h in holes] == [(2, 6)], holes
""")

bug("c03-sort-by-start", "C03",
    "three matches, short inside medium inside long partly, met from left to right",
    "overlaps are solved from left to right: a match removed by a longer one no longer removes the shorter one it hid",
    [(PR, "        public_matches.sort(key=len)\n", "        public_matches.sort(key=lambda match: (match.start, len(match)))\n")],
    """
from rebulk import Rebulk
# long (0,10) removes medium (8,14); short (13,15) overlaps medium only and must go too
text = "abcdefghijklmnopqrst"
bulk = Rebulk().string(text[0:10], text[8:14], text[13:15])
got = [m.span for m in bulk.matches(text)]
assert got == [(0, 10)], got
""")

bug("c04-private-children-of-private-parent", "C04",
    "private_children together with private_parent and named groups",
    "children of a pattern that also has private_parent are not flagged private and leak into the result",
    [(P, "            or (child and self.private_children)\n", "            or (child and self.private_children and not self.private_parent)\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().regex(r"(?P<a>\\d)(?P<b>[a-z])", private_parent=True, private_children=True)
assert list(bulk.matches("1a")) == [], bulk.matches("1a")
""")

bug("c04-private-conflicts", "C04",
    "a long private match overlapping a shorter public one whose pattern has a conflict solver",
    "private matches are left out of conflict solving only when the default solver applies",
    [(PR, """                    conflicting_match for conflicting_match in conflicting_matches if not conflicting_match.private
""", """                    conflicting_match
                    for conflicting_match in conflicting_matches
                    if not conflicting_match.private or conflicting_match.conflict_solver
""")],
    """
from rebulk import Rebulk
bulk = Rebulk().string("abc", private=True, conflict_solver=lambda match, other: "__default__").string("ab", name="public")
assert [m.name for m in bulk.matches("abc")] == ["public"], bulk.matches("abc")
""")

bug("c04-marker-pattern-flag", "C04",
    "a functional pattern that flags one of its returns as a marker while the pattern is not a marker",
    "matches are sorted into markers by the flag of their pattern instead of their own",
    [(RB, "                        if match.marker:\n", "                        if pattern.marker and match.marker:\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().functional(lambda s: [(0, 1, {"marker": True}), (1, 2)])
ms = bulk.matches("abc")
assert [m.span for m in ms] == [(1, 2)] and [m.span for m in ms.markers] == [(0, 1)]
""")

bug("c05-dependency-set", "C05",
    "a rule whose dependency is given as a set (or another iterable than list or tuple)",
    "such dependencies are taken for one dependency and ignored",
    [(R, "        if not is_iterable(rule.dependency) and rule.dependency:\n", "        if not isinstance(rule.dependency, (list, tuple)) and rule.dependency:\n")],
    """
from rebulk import Rebulk, Rule
ran = []
class Late(Rule):
    def when(self, matches, context):
        ran.append("late")
class Early(Rule):
    def when(self, matches, context):
        ran.append("early")
Late.dependency = {Early}
Rebulk().string("a").rules(Late, Early).matches("a")
assert ran == ["early", "late"], ran
""")

bug("c05-when-first", "C05",
    "two rules of the same dependency level where the first one changes what the second one looks at",
    "the conditions of a level are all evaluated before its consequences, so a rule does not see the effects of the rules run before it",
    [(R, """                for rule in sorted_group:
                    when_response = execute_rule(rule, matches, context)
                    if when_response is not None:
                        ret.append((rule, when_response))
""", """                responses = [(rule, check_rule(rule, matches, context)) for rule in sorted_group]
                for rule, when_response in responses:
                    if when_response:
                        apply_rule(rule, matches, when_response, context)
                        ret.append((rule, when_response))
"""), (R, '''def execute_rule(rule: CustomRule, matches: Matches, context: dict[str, Any] | None) -> Any:
    """
    Execute the given rule.
    :param rule:
    :type rule:
    :param matches:
    :type matches:
    :param context:
    :type context:
    :return:
    :rtype:
    """
    if rule.enabled(context):
        log(rule.log_level, "Checking rule condition: %s", rule)
        when_response = rule.when(matches, context)
        if when_response:
            log(rule.log_level, "Rule was triggered: %s", when_response)
            log(rule.log_level, "Running rule consequence: %s %s", rule, when_response)
            rule.then(matches, when_response, context)
            return when_response
    else:
        log(rule.log_level, "Rule is disabled: %s", rule)
    return None
''', '''def check_rule(rule: CustomRule, matches: Matches, context: dict[str, Any] | None) -> Any:
    """
    Check the condition of the given rule.
    """
    if rule.enabled(context):
        log(rule.log_level, "Checking rule condition: %s", rule)
        return rule.when(matches, context)
    log(rule.log_level, "Rule is disabled: %s", rule)
    return None


def apply_rule(rule: CustomRule, matches: Matches, when_response: Any, context: dict[str, Any] | None) -> None:
    """
    Apply the consequence of the given rule.
    """
    log(rule.log_level, "Rule was triggered: %s", when_response)
    log(rule.log_level, "Running rule consequence: %s %s", rule, when_response)
    rule.then(matches, when_response, context)


def execute_rule(rule: CustomRule, matches: Matches, context: dict[str, Any] | None) -> Any:
    """
    Execute the given rule.
    """
    when_response = check_rule(rule, matches, context)
    if when_response:
        apply_rule(rule, matches, when_response, context)
        return when_response
    return None
''')],
    """
from rebulk import Rebulk, Rule, RemoveMatch
class First(Rule):
    consequence = RemoveMatch
    def when(self, matches, context):
        return matches.named("a")
class Second(Rule):
    consequence = RemoveMatch
    def when(self, matches, context):
        return matches.named("b") if matches.named("a") else None
got = Rebulk().string("a", name="a").string("b", name="b").rules(First, Second).matches("ab")
assert [m.name for m in got] == ["b"], got
""")

bug("c05-disabled-dependency", "C05",
    "a rule depending on a rule that is disabled by the context",
    "a rule is skipped together with the disabled rule it depends on",
    [(R, "    if rule.enabled(context):\n", "    if rule.enabled(context) and not (\n        isinstance(rule.dependency, CustomRule) and not rule.dependency.enabled(context)\n    ):\n")],
    """
from rebulk import Rebulk, Rule, RemoveMatch
class Off(Rule):
    consequence = RemoveMatch
    def enabled(self, context):
        return False
    def when(self, matches, context):
        return None
class On(Rule):
    dependency = Off()
    consequence = RemoveMatch
    def when(self, matches, context):
        return matches.named("a")
got = Rebulk().string("a", name="a").rules(On, Off).matches("a")
assert list(got) == [], got
""")

bug("c06-append-equal-duplicates", "C06",
    "an AppendMatch response holding two equal matches",
    "presence is tested before anything is appended, so equal matches of one response are both added",
    [(R, """            for match in when_response:
                if match not in matches:
                    if self.match_name:
                        match.name = self.match_name
                    matches.append(match)
                    ret.append(match)
            return ret
""", """            for match in [match for match in when_response if match not in matches]:
                if self.match_name:
                    match.name = self.match_name
                matches.append(match)
                ret.append(match)
            return ret
""")],
    """
from rebulk.match import Match, Matches
from rebulk.rules import AppendMatch
ms = Matches(input_string="abc")
AppendMatch().then(ms, [Match(0, 1, input_string="abc"), Match(0, 1, input_string="abc")], None)
assert len(ms) == 1, ms
""")

bug("c06-tags-aliased", "C06",
    "AppendTags on untagged matches followed by a tag change on one of them (or a second run of the rule)",
    "matches without tags share the list of the consequence",
    [(R, """            for match in removed:
                match.tags.extend(self.tags)
        elif removed:
            removed.tags.extend(self.tags)
""", """            for match in removed:
                match.tags = match.tags + self.tags if match.tags else self.tags
        elif removed:
            removed.tags.extend(self.tags)
""")],
    """
from rebulk.match import Match, Matches
from rebulk.rules import AppendTags
a, b = Match(0, 1), Match(1, 2)
ms = Matches([a, b], input_string="ab")
AppendTags(["t"]).then(ms, [a, b], None)
a.tags.append("only-a")
assert b.tags == ["t"], b.tags
""")

bug("c06-consequence-list-single", "C06",
    "a consequence list whose rule answers a list of matches per consequence as a Matches collection",
    "a response that is not a list is not distributed over the consequences",
    [(R, "            if not is_iterable(when_response):\n", "            if not isinstance(when_response, (list, tuple)):\n")],
    """
from rebulk import Rebulk, Rule, RemoveMatch, RenameMatch
class Two(Rule):
    consequence = [RemoveMatch, RenameMatch("c")]
    def when(self, matches, context):
        return iter([matches.named("a"), matches.named("b")])
got = Rebulk().string("a", name="a").string("b", name="b").rules(Two).matches("ab")
assert [m.name for m in got] == ["c"], got
""")

bug("c07-effective-patterns-grow", "C07",
    "a child rebulk that is enabled in one call and disabled by the context of a later one",
    "the patterns of an enabled child stay in the parent for the following calls",
    [(RB, "        patterns = list(self._patterns)\n        for rebulk in self._rebulks:\n            if not rebulk.disabled(context):\n                extend_safe(",
      "        patterns = self._patterns\n        for rebulk in self._rebulks:\n            if not rebulk.disabled(context):\n                extend_safe(")],
    """
from rebulk import Rebulk
child = Rebulk(disabled=lambda context: context.get("off")).string("b", name="child")
bulk = Rebulk().string("a", name="own").rebulk(child)
assert len(bulk.matches("ab")) == 2
assert [m.name for m in bulk.matches("ab", {"off": True})] == ["own"]
""")

bug("c07-functional-options-leak", "C07",
    "a functional pattern that gives options to one of its returns and none to a later one",
    "options of one returned span are written into the options shared by all matches of the pattern",
    [(P, """                        kwargs = dict(kwargs)
                        kwargs.update(args[-1])
""", """                        kwargs.update(args[-1])
""")],
    """
from rebulk import Rebulk
bulk = Rebulk().functional(lambda s: (0, 1, {"name": "first"}) if s == "a" else (0, 1))
assert bulk.matches("a")[0].name == "first"
assert bulk.matches("b")[0].name is None, bulk.matches("b")
""")

bug("c07-default-context", "C07",
    "a callback that writes into the context of a call made without context",
    "calls made without context share one dict",
    [(RB, "    def matches(self, string: str, context: dict[str, Any] | None = None) -> Matches:\n", "    def matches(self, string: str, context: dict[str, Any] | None = None, _empty: dict[str, Any] = {}) -> Matches:  # noqa: B006\n"),
     (RB, "        if context is None:\n            context = {}\n", "        if context is None:\n            context = _empty\n")],
    """
from rebulk import Rebulk
def once(string, context):
    if "seen" in context:
        return None
    context["seen"] = True
    return 0, 1
bulk = Rebulk().functional(once)
assert len(bulk.matches("a")) == 1
assert len(bulk.matches("a")) == 1
""")

bug("c08-regex-input", "C08",
    "two threads iterating the matches of one regex pattern at the same time (a slow validator is enough)",
    "the input string of the running call is kept in the options shared by all calls of a pattern",
    [(P, """            main_match = Match(start, end, pattern=self, input_string=input_string, **self._match_kwargs)

            if pattern.groups""", """            main_match = Match(start, end, pattern=self, **self._match_kwargs)

            if pattern.groups"""),
     (P, "        names = {v: k for k, v in pattern.groupindex.items()}\n", "        names = {v: k for k, v in pattern.groupindex.items()}\n        self._match_kwargs[\"input_string\"] = input_string\n")],
    """
import threading
from rebulk import Rebulk
entered, release = threading.Event(), threading.Event()
def validator(match):
    if threading.current_thread() is not threading.main_thread():
        entered.set()
        release.wait(20)
    return True
bulk = Rebulk().regex(r"\\d", validator=validator)
result = []
thread = threading.Thread(target=lambda: result.append([m.value for m in bulk.matches("1 2")]))
thread.start()
assert entered.wait(20)
bulk.matches("7 8")
release.set()
thread.join()
assert result[0] == ["1", "2"], result
""")

bug("c08-chain-state", "C08",
    "two threads (or a re-entrant callback) in one chain at the same time with different strings",
    "the chain keeps the string of the running call on itself while building its matches",
    [(C, "        chain_matches: list[Match] = []\n        chain_input_string = input_string\n", "        chain_matches: list[Match] = []\n        self._string = chain_input_string = input_string\n"),
     (C, "                match = self._build_chain_match(current_chain_matches, input_string)\n", "                match = self._build_chain_match(current_chain_matches, self._string)\n")],
    """
import threading
from rebulk import Rebulk
entered, release = threading.Event(), threading.Event()
def validator(match):
    if threading.current_thread() is not threading.main_thread():
        entered.set()
        release.wait(20)
    return True
bulk = Rebulk().chain().regex(r"\\d", validator=validator).regex("[a-z]").close()
result = []
thread = threading.Thread(target=lambda: result.append([m.value for m in bulk.matches("1a")]))
thread.start()
assert entered.wait(20)
bulk.matches("7z")
release.set()
thread.join()
assert result[0] == ["1a"], result
""")
