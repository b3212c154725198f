M, P, C, R, B, L, U, V, PR, I, T, RB, F, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c01-index-append-short", "C01",
    "at_index, then an append, then at_index at the last position of the appended match",
    "a match appended to an existing index misses its last position",
    [(M, "        if self.__index_dict is not None:\n            for index in range(*match.span):\n                _BaseMatches._base_add", "        if self.__index_dict is not None:\n            for index in range(match.start, max(match.end - 1, match.start + 1)):\n                _BaseMatches._base_add")],
    """
from rebulk.match import Match, Matches
ms = Matches(input_string="abcdef")
ms.at_index(0)
ms.append(Match(1, 3))
assert len(ms.at_index(2)) == 1
""")

bug("c02-range-order", "C02",
    "range over two matches with the same start, the longer first in the collection",
    "range orders by start only",
    [(M, "        for match in sorted(self):\n            if match.start < end", "        for match in sorted(self, key=lambda found: found.start):\n            if match.start < end")],
    """
from rebulk.match import Match, Matches
ms = Matches([Match(0, 3), Match(0, 1)], input_string="abcdef")
assert [m.span for m in ms.range(0, 6)] == [(0, 1), (0, 3)]
""")

bug("c03-longest-first", "C03",
    "a chain of overlapping matches of increasing lengths",
    "matches are decided from the longest to the shortest",
    [(PR, "        public_matches.sort(key=len)\n", "        public_matches.sort(key=len, reverse=True)\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().functional(lambda s: [(0, 2), (1, 4), (3, 8)])
assert [m.span for m in bulk.matches("abcdefghij")] == [(3, 8)], bulk.matches("abcdefghij")
""")

bug("c04-private-child-of-public", "C04",
    "private children of a public parent returned with it",
    "children are only removed when their parent is private",
    [(PR, "        return [match for match in matches if match.private]\n", "        return [match for match in matches if match.private and (match.parent is None or match.parent.private)]\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().regex("(?P<x>a)b", every=True, private_names=["x"])
assert [m.name for m in bulk.matches("ab")] == [None], bulk.matches("ab")
""")

bug("c05-response-after-then", "C05",
    "a rule whose consequence empties the list its condition returned",
    "what was executed is judged by the response as it is after the consequence",
    [(R, "                    if when_response is not None:\n                        ret.append", "                    if when_response:\n                        ret.append")],
    """
from rebulk import CustomRule
from rebulk.match import Matches
from rebulk.rules import Rules
class One(CustomRule):
    def when(self, matches, context):
        return [1, 2]
    def then(self, matches, when_response, context):
        while when_response:
            when_response.pop()
assert len(Rules(One).execute_all_rules(Matches(), {})) == 1
""")

bug("c05-enabled-before-group", "C05",
    "a rule whose consequence decides if a later rule of the same level is enabled",
    "the rules of a level are enabled or not before any of them runs",
    [(R, "                for rule in sorted_group:\n                    when_response", "                for rule in [rule for rule in sorted_group if rule.enabled(context)]:\n                    when_response")],
    """
from rebulk import CustomRule
from rebulk.match import Matches
from rebulk.rules import Rules
class One(CustomRule):
    def when(self, matches, context):
        return True
    def then(self, matches, when_response, context):
        context["on"] = True
class Two(One):
    def enabled(self, context):
        return context.get("on")
assert len(Rules(One, Two).execute_all_rules(Matches(), {})) == 2
""")

bug("c06-append-renames-anyway", "C06",
    "AppendMatch with a name, given a match equal to one which is present",
    "what is not added is renamed all the same",
    [(R, "                if match not in matches:\n                    if self.match_name:\n                        match.name = self.match_name\n                    matches.append(match)", "                present = match in matches\n                if self.match_name:\n                    match.name = self.match_name\n                if not present:\n                    matches.append(match)")],
    """
from rebulk import AppendMatch
from rebulk.match import Match, Matches
m = Match(0, 1, name="old", input_string="ab")
ms = Matches([m], input_string="ab")
AppendMatch("new").then(ms, [m], {})
assert m.name == "old"
""")

bug("c08-rebulk-context", "C08",
    "a second thread calling matches with another context while patterns run in the first",
    "the context of the call is kept on the Rebulk until rules run",
    [(RB, "        if context is None:\n            context = {}\n", "        if context is None:\n            context = {}\n        self._context = context\n"),
     (RB, "        self._execute_rules(matches, context)\n\n        return matches", "        self._execute_rules(matches, self._context)\n\n        return matches"),
     (RB, "        self._rebulks: list[Rebulk] = []\n", "        self._rebulks: list[Rebulk] = []\n        self._context: dict[str, Any] = {}\n")],
    """
import threading
from rebulk import Rebulk, RemoveMatch, Rule
inside, go = threading.Event(), threading.Event()
class Drop(Rule):
    consequence = RemoveMatch
    def enabled(self, context):
        return bool(context.get("drop"))
    def when(self, matches, context):
        return list(matches)
def find(string, context):
    if context.get("slow"):
        inside.set()
        go.wait(10)
    return (0, 1)
bulk = Rebulk().functional(find).rules(Drop)
out = []
t = threading.Thread(target=lambda: out.append(bulk.matches("abc", {"slow": 1})))
t.start()
inside.wait(10)
assert len(bulk.matches("abc", {"drop": 1})) == 0
go.set()
t.join()
assert len(out[0]) == 1, out
""")

bug("c08-rule-response", "C08",
    "a thread switch between the condition and the consequence of one rule instance",
    "the response of the condition is kept on the rule",
    [(R, """        when_response = rule.when(matches, context)
        if when_response:
            log(rule.log_level, "Rule was triggered: %s", when_response)
            log(rule.log_level, "Running rule consequence: %s %s", rule, when_response)
            rule.then(matches, when_response, context)
            return when_response
""", """        rule.response = rule.when(matches, context)
        if rule.response:
            log(rule.log_level, "Rule was triggered: %s", rule.response)
            log(rule.log_level, "Running rule consequence: %s %s", rule, rule.response)
            rule.then(matches, rule.response, context)
            return rule.response
"""), (R, "        self.defined_at = debug.defined_at()\n        self.log_level: int\n", "        self.defined_at = debug.defined_at()\n        self.response: Any = None\n        self.log_level: int\n")],
    """
import threading
from rebulk import CustomRule, Rebulk
first, second = threading.Event(), threading.Event()
class Response:
    def __init__(self, text):
        self.text = text
    def __bool__(self):
        if self.text == "slow":
            first.set()
            second.wait(10)
        return True
seen = {}
class Note(CustomRule):
    def when(self, matches, context):
        return Response(matches.input_string)
    def then(self, matches, when_response, context):
        seen[matches.input_string] = when_response.text
bulk = Rebulk().rules(Note)
t = threading.Thread(target=lambda: bulk.matches("slow"))
t.start()
first.wait(10)
bulk.matches("fast")
second.set()
t.join()
assert seen == {"slow": "slow", "fast": "fast"}, seen
""")

bug("c09-end-zero", "C09",
    "a string pattern with end=0",
    "an end of 0 counts as no end",
    [(U, "        start = string.find(sub, start, end)\n", "        start = string.find(sub, start, end or None)\n")],
    """
from rebulk import Rebulk
assert list(Rebulk().string("a", end=0).matches("abc")) == []
""")

bug("c10-equal-groups", "C10",
    "two unnamed groups over the same text",
    "a group equal to a previous one is left out",
    [(P, "                        if child_match:\n                            main_match.children.append", "                        if child_match and child_match not in main_match.children:\n                            main_match.children.append")],
    """
from rebulk import Rebulk
assert len(Rebulk().regex("((a)b?)", children=True).matches("a")) == 2
""")

bug("c10-longest-abbreviation", "C10",
    "abbreviations where a later one is longer than an earlier one",
    "abbreviations are replaced from the longest to the shortest",
    [(P, '        self.abbreviations = kwargs.get("abbreviations", [])\n', '        self.abbreviations = sorted(kwargs.get("abbreviations", []), key=lambda item: -len(item[0]))\n')],
    """
from rebulk import Rebulk
bulk = Rebulk().regex("xy", abbreviations=[("x", "a"), ("xy", "b")])
assert [m.value for m in bulk.matches("ay b")] == ["ay"], bulk.matches("ay b")
""")

bug("c11-none-entry", "C11",
    "an entry of None for a name next to a default entry",
    "an entry of None counts as no entry",
    [(U, "        if key in data:\n            return data[key]", "        if key in data and data[key] is not None:  # type: ignore[index]\n            return data[key]")],
    """
from rebulk import Rebulk
bulk = Rebulk().string("a", name="n", validator={"n": None, None: lambda m: False})
assert len(bulk.matches("a")) == 1
""")

bug("c11-format-all-validates", "C11",
    "format_all with a validator on children that are not returned",
    "format_all extends validation as well",
    [(P, "        if included or self.validate_all:\n", "        if included or self.validate_all or self.format_all:\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().regex("(?P<x>a)b", format_all=True, validator={"x": lambda m: False})
assert len(bulk.matches("ab")) == 1
""")

bug("c11-post-processor-each", "C11",
    "a post_processor on a pattern made of several strings",
    "the post processor sees the matches of one string at a time",
    [(P, """        for pattern in self.patterns:
            for match_index, match in enumerate(self._match(pattern, input_string, context)):
                raw_matches.append(match)
                matches.extend(self._process_matches(match, match_index))

        matches = self._post_process_matches(matches)
""", """        for pattern in self.patterns:
            found: list[Match] = []
            for match_index, match in enumerate(self._match(pattern, input_string, context)):
                raw_matches.append(match)
                found.extend(self._process_matches(match, match_index))
            matches.extend(self._post_process_matches(found))
""")],
    """
from rebulk import Rebulk
bulk = Rebulk().string("a", "b", post_processor=lambda ms, p: ms[:1])
assert [m.value for m in bulk.matches("ab")] == ["a"], bulk.matches("ab")
""")

bug("c12-options-next", "C12",
    "a functional pattern returning options with one of several spans, another one following",
    "the options of one return stay for the following ones",
    [(P, """                    kwargs = self._match_kwargs
                    if isinstance(args[-1], dict):
                        kwargs = dict(kwargs)
                        kwargs.update(args[-1])
""", """                    if isinstance(args[-1], dict):
                        kwargs = {**kwargs, **args[-1]}
"""), (P, "            for args in args_iterable:\n", "            kwargs = self._match_kwargs\n            for args in args_iterable:\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().functional(lambda s: [(0, 1, {"name": "n"}), (1, 2)])
assert [m.name for m in bulk.matches("ab")] == ["n", None]
""")

bug("c12-signature-by-name", "C12",
    "two functions of the same qualified name and other parameters",
    "signatures are remembered by name",
    [(L, "    argspec = getfullargspec(callable_)\n", "    name = (getattr(callable_, \"__module__\", None), getattr(callable_, \"__qualname__\", id(callable_)), getattr(callable_, \"__defaults__\", None))\n    argspec = _specs.setdefault(name, None) or getfullargspec(callable_)\n    _specs[name] = argspec\n"),
     (L, "def function_args(", "_specs: dict[Any, Any] = {}\n\n\ndef function_args(")],
    """
from rebulk import Rebulk
def build(wide):
    if wide:
        f = lambda s, context: (0, 1, {"name": str(context)})
    else:
        f = lambda s: (0, 1)
    return Rebulk().functional(f)
assert len(build(False).matches("a")) == 1
assert build(True).matches("a", {"k": 1})[0].name == "{'k': 1}"
""")

bug("c13-blank-between-parts", "C13",
    "a blank between two parts of a chain",
    "parts may be separated by blanks",
    [(C, "            if separator:\n                return []", "            if separator.strip():\n                return []")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().string("a").string("b").close()
assert list(bulk.matches("a b")) == []
""")

bug("c13-blank-between-repetitions", "C13",
    "a blank between two repetitions of a part",
    "repetitions may be separated by blanks",
    [(C, "            if separator:\n                break", "            if separator and not separator.isspace():\n                break")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().string("a").repeater("+").close()
assert [m.span for m in bulk.matches("a a")] == [(0, 1), (2, 3)], bulk.matches("a a")
""")

bug("c13-repeater-missing-min", "C13",
    "a repeater without minimum",
    "a repeater without minimum needs one repetition",
    [(C, "                    self.repeater_start = int(start) if start else 0\n", "                    self.repeater_start = int(start) if start else 1\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().string("a").string("b").repeater("{,2}").close()
assert len(bulk.matches("a")) == 1
""")

bug("c14-list-dedupe", "C14",
    "a tag given both by defaults and explicitly",
    "values of a list option given at both places are kept once",
    [(L, "                kwargs[key] = list(value) + kwargs[key]\n", "                kwargs[key] = [item for item in value if item not in kwargs[key]] + kwargs[key]\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().defaults(tags=["a", "b"]).string("x", tags=["a"])
assert bulk.matches("x")[0].tags == ["a", "b", "a"], bulk.matches("x")[0].tags
""")

bug("c14-chain-functional-defaults", "C14",
    "functional defaults set on a builder before a chain with a functional part",
    "a chain takes the string defaults of its builder for its functional parts",
    [(B, "        self._functional_defaults = deepcopy(source._functional_defaults)\n", "        self._functional_defaults = deepcopy(source._string_defaults)\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().functional_defaults(name="n").chain().string("a").functional(lambda s: (0, 1)).close()
assert [c.name for c in bulk.matches("ab")[0].children] == [None, "n"], bulk.matches("ab")[0].children
""")

bug("c15-first-declaration", "C15",
    "a key declared twice",
    "the first declaration of a name wins",
    [(B, "            self._keys[key.name] = key\n", "            self._keys.setdefault(key.name, key)\n")],
    """
from rebulk import Key, Rebulk
bulk = Rebulk().declare_keys(Key("n", int)).declare_keys(Key("n", float)).regex(r"\\d", name="n")
assert type(bulk.matches("1")[Key("n", float)]) is float
""")

bug("c15-falsy-lookup", "C15",
    "a key whose first value is falsy",
    "a falsy value is looked up as None",
    [(M, "            return named[0].value if named else None\n", "            return (named[0].value or None) if named else None\n")],
    """
from rebulk import Key, Rebulk
key = Key("n", int)
assert Rebulk().regex(r"\\d", key=key).matches("0")[key] == 0
""")

bug("c16-falsy-first", "C16",
    "a field whose first value is falsy",
    "a falsy value counts as no value",
    [(M, "            elif values:\n                kwargs[name] = values[0]\n", "            elif any(values):\n                kwargs[name] = values[0]\n")],
    """
from dataclasses import dataclass
from rebulk import Rebulk
@dataclass
class Model:
    n: int = 7
assert Rebulk().regex(r"\\d", name="n", formatter=int).matches("0").to(Model).n == 0
""")

bug("c16-first-by-span", "C16",
    "to(int) on matches that are not in span order",
    "the first value is that of the leftmost match",
    [(M, "            return cast(\"M\", self[0].value)\n", "            return cast(\"M\", min(self._delegate).value)\n")],
    """
from rebulk import Rebulk
ms = Rebulk().string("b", "a").matches("ab")
assert ms.to(str) == "b"
""")

bug("c17-pieces-share-tags", "C17",
    "tags changed on one of the pieces of a cropped match",
    "the pieces on both sides of a crop share their tags",
    [(M, "                    right = copy.deepcopy(current)\n", "                    right = copy.copy(current)\n")],
    """
from rebulk.match import Match
left, right = Match(0, 5, tags=["t"], input_string="abcde").crop((2, 3))
left.tags.append("mine")
assert right.tags == ["t"], right.tags
""")

bug("c17-split-shares-tags", "C17",
    "tags changed on one of the pieces of a split match",
    "the pieces of a split share their tags",
    [(M, "                    split_match = copy.deepcopy(current_match)\n", "                    split_match = copy.copy(current_match)\n")],
    """
from rebulk.match import Match
left, right = Match(0, 5, tags=["t"], input_string="ab-de").split("-")
left.tags.append("mine")
assert right.tags == ["t"], right.tags
""")

bug("c18-disabled-keys", "C18",
    "a disabled child declaring a key",
    "keys of disabled children are declared",
    [(RB, "            if not rebulk.disabled(context):\n                for name, key in rebulk.effective_keys(context).items():\n                    keys.setdefault(name, key)\n", "            for name, key in rebulk.effective_keys(context).items():\n                keys.setdefault(name, key)\n")],
    """
from rebulk import Key, Rebulk
bulk = Rebulk().rebulk(Rebulk(disabled=True).declare_keys(Key("n", int)))
assert bulk.matches("a").declared_keys == {}
""")

bug("c19-version1", "C19",
    "an expression ignoring case on letters whose full case folding is longer",
    "the regex module runs with its version 1 behaviour",
    [(RE, "        re = _regex\n        REGEX_ENABLED = True\n", "        _regex.DEFAULT_VERSION = _regex.VERSION1\n        re, REGEX_ENABLED = _regex, True\n")],
    """
from rebulk import Rebulk
assert list(Rebulk().regex("(?i)ss").matches("Stra\\u00dfe")) == []
""", env="export REBULK_REGEX_ENABLED=1\n")

bug("c19-many-captures", "C19",
    "a group captured more than five times",
    "the first captures of a group repeated many times are lost",
    [(P, "                        spans = match_object.spans(i)\n", "                        spans = match_object.spans(i)[-5:]\n")],
    """
from rebulk import Rebulk
ms = Rebulk().regex("((?P<x>a)+b?)+", children=True).matches("aaabaaab")
assert len(ms.named("x")) == 6, ms
""", env="export REBULK_REGEX_ENABLED=1\n")

bug("c19-captures-once", "C19",
    "a group captured twice at one place (inside a lookahead)",
    "captures at one span are taken once",
    [(P, "                        spans = match_object.spans(i)\n", "                        spans = sorted(set(match_object.spans(i)))\n")],
    """
from rebulk import Rebulk
ms = Rebulk().regex("(?:(?=a*(?P<x>b))a)+", children=True, conflict_solver=lambda a, b: "__default__").matches("aab")
from rebulk.pattern import RePattern
assert len(RePattern("(?:(?=a*(?P<x>b))a)+", children=True).matches("aab")) == 2
""", env="export REBULK_REGEX_ENABLED=1\n")

bug("c22-hash-name", "C22",
    "a match in a set renamed afterwards",
    "the hash depends on the name",
    [(M, "        return hash((Match, self.start, self.end))\n", "        return hash((Match, self.start, self.end, self.name))\n")],
    """
from rebulk.match import Match
m = Match(0, 1, name="a")
found = {m}
m.name = "b"
assert m in found
""")

bug("c22-eq-literal", "C22",
    "a literal value equal to the formatted text of another match",
    "equality compares literal values and texts instead of values",
    [(M, "                self.span == other.span\n                and self.value == other.value\n", "                self.span == other.span\n                and (self._value, self.raw) == (other._value, other.raw)\n")],
    """
from rebulk.match import Match
a, b = Match(0, 1, value="A", input_string="a"), Match(0, 1, formatter=str.upper, input_string="a")
assert a == b
""")

bug("c24-validator-typeerror", "C24",
    "a validator raising TypeError once",
    "a validator raising TypeError is called a second time",
    [(P, "            if validator and not validator(match):\n                return False\n", "            try:\n                if validator and not validator(match):\n                    return False\n            except TypeError:\n                return bool(validator(match))\n")],
    """
from rebulk import Rebulk
calls = []
def validator(match):
    calls.append(match)
    if len(calls) == 1:
        raise TypeError("mine")
    return True
try:
    Rebulk().string("a", validator=validator).matches("a")
except TypeError:
    pass
else:
    raise SystemExit("the exception was lost")
""")

bug("c24-predicate-indexerror", "C24",
    "a predicate of a lookup raising IndexError inside a rule",
    "an IndexError raised by a predicate counts as a missing index",
    [(L, """    if predicate:
        collection = collection.__class__(filter(predicate, collection))
    if index is not None:
        try:
            collection = collection[index]
        except IndexError:
            collection = None
    return collection
""", """    if index is not None:
        try:
            return (collection.__class__(filter(predicate, collection)) if predicate else collection)[index]
        except IndexError:
            return None
    if predicate:
        collection = collection.__class__(filter(predicate, collection))
    return collection
""")],
    """
from rebulk import CustomRule, Rebulk
def predicate(m):
    return m.raw[7]
class Look(CustomRule):
    def when(self, matches, context):
        return matches.range(predicate=predicate, index=0)
    def then(self, matches, when_response, context):
        pass
try:
    Rebulk().string("a").rules(Look).matches("a")
except IndexError:
    pass
else:
    raise SystemExit("the exception was lost")
""")

bug("c24-rule-running", "C24",
    "a rule whose condition raises, or calls matches() again",
    "a rule that is running is skipped, and stays so after an exception",
    [(R, """    if rule.enabled(context):
        log(rule.log_level, "Checking rule condition: %s", rule)
        when_response = rule.when(matches, context)
""", """    if rule.enabled(context) and not rule.__dict__.get("running"):
        log(rule.log_level, "Checking rule condition: %s", rule)
        rule.__dict__["running"] = True
        when_response = rule.when(matches, context)
        rule.__dict__["running"] = False
""")],
    """
from rebulk import Rebulk, RemoveMatch, Rule
fail = [True]
class Drop(Rule):
    consequence = RemoveMatch
    def when(self, matches, context):
        if fail:
            fail.pop()
            raise ValueError("mine")
        return list(matches)
bulk = Rebulk().string("a").rules(Drop)
try:
    bulk.matches("a")
except ValueError:
    pass
assert len(bulk.matches("a")) == 0
""")

bug("c25-trailing-blank", "C25",
    "a match followed by blanks up to the end of the text",
    "blanks at the end of the text count as its end",
    [(V, "    if match.end >= len(input_string):\n", "    if match.end >= len(input_string.rstrip()):\n")],
    """
from rebulk.match import Match
from rebulk.validators import chars_after
assert not chars_after("-", Match(0, 1, input_string="a  "))
""")

bug("c25-line-start", "C25",
    "a match at the start of a line",
    "the start of a line counts as the start of the text",
    [(V, "    if match.start <= 0:\n", "    if match.start <= 0 or match.input_string[match.start - 1] == \"\\n\":\n")],
    """
from rebulk.match import Match
from rebulk.validators import chars_before
assert not chars_before("-", Match(2, 3, input_string="a\\nb"))
""")
