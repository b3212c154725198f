M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))

bug("c28-append-set", "C28",
    "a rule that appends several matches",
    "they are appended in the order of a set",
    [(R, "            ret = []\n            when_response = list(when_response)\n            for match in when_response:\n                if match not in matches:", "            ret = []\n            when_response = list(set(when_response))\n            for match in when_response:\n                if match not in matches:")],
    '''
from rebulk import Rebulk, Rule, AppendMatch
from rebulk.match import Match
class R(Rule):
    consequence = AppendMatch
    def when(self, matches, context): return [Match(i, i + 1, input_string="abcdefghij") for i in range(9, -1, -1)]
assert [m.start for m in Rebulk().rules(R).matches("abcdefghij")] == list(range(9, -1, -1))
''')

bug("c09-final-sigma", "C09",
    "a text with a capital sigma at the end of a word, case ignored",
    "the lower case of a character depends on what is around",
    [(U, '    return "".join(char.lower() if len(char.lower()) == 1 else char for char in string)', '    lowered = string.lower()\n    if len(lowered) == len(string):\n        return lowered\n    return "".join(char.lower() if len(char.lower()) == 1 else char for char in string)')],
    '''
from rebulk import Rebulk
assert len(Rebulk().string("\\u03c3", ignore_case=True).matches("\\u0391\\u03a3 a")) == 1
''')

bug("c09-negative-end", "C09",
    "a negative end option",
    "the search goes up to the end of the text",
    [(U, "        start = string.find(sub, start, end)", "        start = string.find(sub, start, end if end is None or end >= 0 else None)")],
    '''
from rebulk import Rebulk
assert len(Rebulk().string("a", end=-1).matches("aba")) == 1
''')

bug("c02-seps-class", "C02",
    "separators that mean something in a regular expression class",
    "separators of holes are a class of a regular expression",
    [(M, "            if seps and hole and self.input_string and self.input_string[rindex] in seps:", "            if seps and hole and self.input_string and re.match(f\"[{seps}]\", self.input_string[rindex]):"), (M, "import itertools\n", "import itertools\nimport re\n")],
    '''
from rebulk.match import Matches
assert [m.raw for m in Matches(input_string="a,b-c").holes(seps="+-.")] == ["a,b", "c"] or [m.raw for m in Matches(input_string="a,b-c").holes(seps="+-.")][0] == "a,b"
''')

bug("c22-duck-span", "C22",
    "a match compared with an object that is not a match but has a span",
    "any object with a span is compared",
    [(M, "    def __lt__(self, other: object) -> bool:\n        if isinstance(other, Match):", "    def __lt__(self, other: object) -> bool:\n        if hasattr(other, \"span\"):")],
    '''
from types import SimpleNamespace
from rebulk.match import Match
try: Match(0, 1) < SimpleNamespace(span=(0, 2))
except TypeError: pass
else: raise SystemExit("compared")
''')

bug("c14-tuple-concat", "C14",
    "a default given as a tuple and an explicit list",
    "they are concatenated",
    [(L, "            if isinstance(value, list) and isinstance(kwargs[key], list):", "            if isinstance(value, (list, tuple)) and isinstance(kwargs[key], list):")],
    '''
from rebulk import Rebulk
assert Rebulk().defaults(tags=("a",)).string("x", tags=["b"]).matches("x")[0].tags == ["b"]
''')

bug("c10-lookahead-group", "C10",
    "a group inside a lookahead, after the end of the match",
    "groups that are not inside the match are left out",
    [(P, "                        if child_match:\n                            main_match.children.append", "                        if child_match and child_end <= end:\n                            main_match.children.append")],
    '''
from rebulk import Rebulk
assert [m.raw for m in Rebulk().regex("a(?=(b))", children=True).matches("ab")] == ["b"]
''')

bug("c10-compile-cache", "C10",
    "the same expression with other flags",
    "the flags of the first one are used",
    [(P, "                pattern = call(re.compile, pattern, **self._kwargs)", "                pattern = _compiled.setdefault(pattern, call(re.compile, pattern, **self._kwargs)) if len(pattern) > 2 else call(re.compile, pattern, **self._kwargs)"), (P, "class RePattern(Pattern):", "_compiled: dict[str, Any] = {}\n\n\nclass RePattern(Pattern):")],
    '''
from rebulk import Rebulk
Rebulk().regex("abc").matches("ABC")
assert len(Rebulk().regex("abc", flags=2).matches("ABC")) == 1
''')

bug("c04-private-markers", "C04",
    "a private marker",
    "private markers are lost",
    [(RB, "                        if match.marker:\n", "                        if match.marker and match.private:\n                            continue\n                        if match.marker:\n"), (RB, '                            log(pattern.log_level, "Marker found. (%s)", match)', '                            log(pattern.log_level, "Marker was found. (%s)", match)')],
    '''
from rebulk import Rebulk
assert len(Rebulk().string("a", marker=True, private=True).matches("a").markers) == 1
''')

bug("c08-formatters-state", "C08",
    "formatters(...) used in two threads",
    "the value being formatted is kept in the chain",
    [(F, "        for chained_formatter in chained_formatters:\n            input_string = chained_formatter(input_string)\n        return input_string", "        state[0] = input_string\n        for chained_formatter in chained_formatters:\n            state[0] = chained_formatter(state[0])\n        return state[0]"), (F, "    def formatters_chain(", "    state: list[Any] = [None]\n\n    def formatters_chain(")],
    '''
import threading
from rebulk.formatters import formatters
first = threading.Event(); second = threading.Event()
def slow(s):
    if s == "a":
        first.set(); second.wait(5)
    return s.upper()
f = formatters(str, slow, str)
out = {}
def other():
    first.wait(5); out["b"] = f("b"); second.set()
g = formatters(lambda s: s, slow, lambda s: s + "!")
def run():
    first.wait(5); out["b"] = g("b"); second.set()
t = threading.Thread(target=run); t.start()
h = formatters(lambda s: s, lambda s: (slow(s)), lambda s: s + "!")
hold = threading.Event()
res = []
def first_part(s):
    if s == "a":
        first.set(); second.wait(5)
    return s
k = formatters(first_part, str.upper)
def run2():
    first.wait(5); res.append(k("b")); second.set()
t.join(0)
first.clear(); second.clear()
def step(s):
    return s
k2 = formatters(str, lambda s: (first.set(), second.wait(5), s)[2] if s == "a" else s, str.upper)
t2 = threading.Thread(target=lambda: (first.wait(5), res.append(k2("b")), second.set())); t2.start()
class V(str): pass
import sys
lines = []
got = None
def tracer(frame, event, arg):
    if frame.f_code.co_name != "formatters_chain" or threading.current_thread() is not threading.main_thread(): return None
    def local(frame, event, arg):
        if event == "line" and not lines_done:
            count[0] += 1
            if count[0] == stop:
                lines_done.append(1)
                t = threading.Thread(target=lambda: m("zz")); t.start(); t.join()
        return local
    return local
first.set(); second.set(); t.join(); t2.join()
m = formatters(str.strip, str.upper)
for stop in range(1, 9):
    count = [0]; lines_done = []
    sys.settrace(tracer); r = m(" a "); sys.settrace(None)
    assert r == "A", r
''')

bug("c08-solver-state", "C08",
    "two threads in the conflict solver at once",
    "the matches to remove are kept in the rule",
    [(PR, "        to_remove_matches = IdentitySet()", "        to_remove_matches = self.to_remove_matches = IdentitySet()"), (PR, "        return to_remove_matches", "        return self.to_remove_matches")],
    '''
import threading
from rebulk import Rebulk
go, done = threading.Event(), threading.Event()
out = []
def solver(m, o):
    if m.input_string == "ab ":
        go.set(); done.wait(5)
    return "__default__"
b = Rebulk().string("a").string("ab", conflict_solver=solver)
def other():
    go.wait(5); out.append(b.matches("zz")); done.set()
t = threading.Thread(target=other); t.start()
r = b.matches("ab "); t.join()
assert [m.value for m in r] == ["ab"], r
''')

bug("c12-namedtuple", "C12",
    "a functional pattern that returns a subclass of tuple as a span with options",
    "only plain tuples and lists may end with options",
    [(P, "                    if isinstance(args[-1], dict):", "                    if type(args) in (tuple, list) and isinstance(args[-1], dict):")],
    '''
from collections import namedtuple
from rebulk import Rebulk
S = namedtuple("S", "start end options")
assert Rebulk().functional(lambda s: S(0, 1, {"name": "n"})).matches("a")[0].name == "n"
''')

bug("c21-allowed-substring", "C21",
    "an allowed name given as a string that contains another declared name",
    "names that are part of the allowed one are allowed too",
    [(RB, "{allowed_unused} if isinstance(allowed_unused, str) else set(allowed_unused)", "allowed_unused if isinstance(allowed_unused, str) else set(allowed_unused)")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().declare_keys(Key("year", int), Key("ear", int))
assert b.check_keys(allowed_unused="year") == ["ear"]
''')

bug("c25-no-chars", "C25",
    "no characters given",
    "everything is accepted",
    [(V, '    return input_string[match.end] in chars', '    return not chars or input_string[match.end] in chars')],
    '''
from rebulk.validators import chars_after
from rebulk.match import Match
assert not chars_after("", Match(0, 1, input_string="ab"))
''')

bug("c29-silent-child", "C29",
    "a child Rebulk whose patterns match nothing, and a pattern ahead of it",
    "the patterns of children are ahead of the others when there are several children",
    [(RB, "        patterns = list(self._patterns)\n        for rebulk in self._rebulks:\n            if not rebulk.disabled(context):\n                extend_safe(patterns, rebulk.effective_patterns(context))\n        return patterns", "        patterns = list(self._patterns)\n        for rebulk in self._rebulks:\n            if not rebulk.disabled(context):\n                extend_safe(patterns, rebulk.effective_patterns(context))\n        return patterns if len(self._rebulks) < 3 else patterns[len(self._patterns):] + self._patterns")],
    '''
from rebulk import Rebulk
def make(n):
    b = Rebulk().string("b").rebulk(Rebulk().string("a"))
    for i in range(n): b.rebulk(Rebulk().string("zz"))
    return [m.value for m in b.matches("ab")]
assert make(0) == make(1) == make(2) == make(3), [make(i) for i in range(4)]
''')

bug("c16-none-value", "C16",
    "a first match whose value is None",
    "the value of the next match is used",
    [(M, "            if not self._delegate:\n                raise LookupError", "            for match in self._delegate[:-1]:\n                if match.value is not None:\n                    return cast(\"M\", match.value)\n            if self._delegate[1:]:\n                return cast(\"M\", self[-1].value)\n            if not self._delegate:\n                raise LookupError"), (M, 'raise LookupError(f"no match available to build a {model.__name__}")', 'raise LookupError(f"no match to build a {model.__name__}")')],
    '''
from rebulk import Rebulk
assert Rebulk().string("0", "1", formatter=lambda s: int(s) or None).matches("01").to(int) is None
''')

bug("c06-list-of-iterables", "C06",
    "a list of consequences, one of whose responses is a generator",
    "the responses of a list of consequences are taken one match at a time",
    [(R, "                cons.then(matches, next(iterator), context)", "                response = next(iterator)\n                cons.then(matches, next(response, []) if hasattr(response, '__next__') else response, context)")],
    '''
from rebulk import Rebulk, Rule, RemoveMatch, AppendMatch
class R(Rule):
    consequence = [RemoveMatch, AppendMatch]
    def when(self, matches, context):
        old = list(matches)
        return [(m for m in old), []]
assert len(Rebulk().rules(R).string("a").matches("aa")) == 0
''')

