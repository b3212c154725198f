M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c01-missing-key-named", "C01",
    "matches.all(key) for a name no match has, then names",
    "looking for the values of a key adds its name to names",
    [(M, "        return [match.value for match in self._name_dict.get(key.name, ())]", "        return [match.value for match in self._name_dict[key.name]]")],
    '''
from rebulk import Key
from rebulk.match import Matches, Match
ms = Matches([Match(0, 1, name="n", input_string="ab")])
assert ms.all(Key("other", str)) == []
assert list(ms.names) == ["n"], ms.names
''')

bug("c01-insert-negative", "C01",
    "insert at a negative index after a lookup was made",
    "the lookups give the inserted match last",
    [(M, "        appended = index >= len(self._delegate)", "        appended = not 0 <= index < len(self._delegate)")],
    '''
from rebulk.match import Matches, Match
a, b, c = (Match(0, i, name="n", input_string="abcd") for i in (1, 2, 3))
ms = Matches([a, b])
ms.named("n")
ms.insert(-1, c)
assert ms.named("n") == [a, c, b]
''')

bug("c02-rejected-stops", "C02",
    "chain_after through a match the predicate rejects, whose text is made of separators",
    "the walk ends at a match rejected by the predicate even on separators",
    [(M, """            elif self.input_string[i] not in seps:  # type: ignore[index]
                break

        return filter_index(chain, predicate, index)

    @property
    def max_end""", """            elif index_matches or self.input_string[i] not in seps:  # type: ignore[index]
                break

        return filter_index(chain, predicate, index)

    @property
    def max_end""")],
    '''
from rebulk.match import Matches, Match
t = "a-b"
a, s, b = (Match(i, i + 1, name=n, input_string=t) for i, n in ((0, "n"), (1, "sep"), (2, "n")))
ms = Matches([a, s, b], input_string=t)
assert ms.chain_after(a, "-", predicate=lambda m: m.name == "n") == [b]
''')

bug("c02-next-filters-first", "C02",
    "next() with a predicate no match of the nearest group satisfies",
    "the group after the nearest one is given",
    [(M, "            if next_matches:\n                return filter_index(next_matches, predicate, index)", "            found = filter_index(next_matches, predicate, index)\n            if found:\n                return found")],
    '''
from rebulk.match import Matches, Match
t = "abc"
a, b, c = (Match(i, i + 1, name=t[i], input_string=t) for i in range(3))
ms = Matches([a, b, c], input_string=t)
assert ms.next(a, lambda m: m.name == "c") == []
''')

bug("c03-third-match", "C03",
    "a conflict solver that designates a match other than the two it is given",
    "only the two conflicting matches can be removed",
    [(PR, "                        if to_remove and to_remove not in to_remove_matches:", "                        if (to_remove is match or to_remove is conflicting_match) and to_remove not in to_remove_matches:")],
    '''
from rebulk import Rebulk
found = {}
def pick(m, o):
    return found["x"]
def keep(m):
    found["x"] = m
    return True
b = Rebulk().string("c", validator=keep).string("ab", conflict_solver=pick).string("b")
assert [m.value for m in b.matches("abc")] == ["ab", "b"], b.matches("abc")
''')

bug("c05-enabled-none", "C05",
    "a rule whose enabled() returns None or 0",
    "only False disables a rule",
    [(R, "    if rule.enabled(context):", "    if rule.enabled(context) is not False:")],
    '''
from rebulk import Rebulk, CustomRule
class R(CustomRule):
    def enabled(self, context): return context.get("on")
    def when(self, matches, context): return True
    def then(self, matches, when_response, context): matches.clear()
assert len(Rebulk().rules(R).string("a").matches("a")) == 1
''')

bug("c05-instance-priority", "C05",
    "a rule instance that has a priority of its own",
    "the priority of the class is used to group rules",
    [(R, "groupby(sorted(self), lambda rule: rule.priority)", "groupby(sorted(self), lambda rule: type(rule).priority)")],
    '''
from rebulk import Rebulk, CustomRule
seen = []
class Base(CustomRule):
    def __init__(self, priority):
        super().__init__()
        self.priority = priority
    def when(self, matches, context): seen.append(type(self).__name__)
    def then(self, matches, when_response, context): pass
class A(Base): pass
class B(Base):
    dependency = A
Rebulk().rules(A(1), B(2)).matches("a")
assert seen == ["B", "A"], seen
''')

bug("c06-response-is-matches", "C06",
    "a rule whose condition returns the collection itself",
    "every other match is removed only",
    [(R, "            ret = []\n            when_response = list(when_response)\n            for match in when_response:\n                if self._remove(", "            ret = []\n            for match in when_response:\n                if self._remove(")],
    '''
from rebulk import Rebulk, Rule, RemoveMatch
class R(Rule):
    consequence = RemoveMatch
    def when(self, matches, context): return matches
assert len(Rebulk().rules(R).string("a").matches("aaa")) == 0
''')

bug("c08-lower-cache", "C08",
    "two threads searching case-insensitively in different strings, interrupted between two statements",
    "one thread gets the lowered string of the other",
    [(U, '''    if string.isascii():
        return string.lower()
''', '''    if string.isascii():
        if _last["string"] != string:
            _last["string"] = string
            _last["lower"] = string.lower()
        return _last["lower"]
'''), (U, '''def _lower(string: str) -> str:
''', '''_last: dict[str, Any] = {"string": None, "lower": None}


def _lower(string: str) -> str:
''')],
    '''
import sys, threading
from rebulk import utils
lines = {"n": 0}
other = []
def tracer(frame, event, arg):
    if frame.f_code.co_name != "_lower": return None
    def local(frame, event, arg):
        if event == "line" and not other and lines["n"] >= 0:
            lines["n"] += 1
            if lines["n"] == stop:
                sys.settrace(None)
                t = threading.Thread(target=lambda: other.append(utils._lower("QQQ")))
                t.start(); t.join()
                sys.settrace(tracer)
        return local
    return local
for stop in range(1, 8):
    lines["n"] = 0; other.clear()
    sys.settrace(tracer)
    r = utils._lower("AB%d" % stop)
    sys.settrace(None)
    assert r == "ab%d" % stop, r
''')

bug("c10-tuple-abbreviations", "C10",
    "abbreviations with an expression given as a tuple",
    "the abbreviations are replaced in the tuple form too",
    [(P, '                pattern = re.compile(*pattern)', '                pattern = list(pattern)\n                for key, replacement in self.abbreviations:\n                    pattern[0] = pattern[0].replace(key, replacement)\n                pattern = re.compile(*pattern)')],
    '''
from rebulk import Rebulk
assert [m.value for m in Rebulk().regex(("a-b", 0), abbreviations=[("-", "x")]).matches("a-b axb")] == ["a-b"]
''')

bug("c13-repeater-digits", "C13",
    "a repeater given as a string of digits",
    "it is ignored",
    [(C, "            value = int(value)\n            self.repeater_start = value", "            if isinstance(value, str):\n                raise ValueError\n            value = int(value)\n            self.repeater_start = value")],
    '''
from rebulk import Rebulk
assert [m.value for m in Rebulk().chain().string("a").repeater("2").close().matches("aaa")] == ["aa"]
''')

bug("c15-declared-later", "C15",
    "a key declared on a child after a first call to matches",
    "the keys of the first call are kept",
    [(RB, "            matches.declared_keys = self.effective_keys(context)", "            if len(getattr(self, '_known', ())) < len(self._keys) or not hasattr(self, '_known'):\n                self._known = self.effective_keys(context)\n            matches.declared_keys = dict(self._known)")],
    '''
from rebulk import Rebulk, Key
child = Rebulk()
b = Rebulk().declare_keys(Key("n", int)).rebulk(child)
b.matches("a")
child.declare_keys(Key("m", int))
assert sorted(b.matches("a").declared_keys) == ["m", "n"]
''')

bug("c18-grandchild-keys", "C18",
    "a key declared by a child of a child",
    "the keys of grandchildren are not part of the whole",
    [(RB, "                for name, key in rebulk.effective_keys(context).items():", "                for name, key in rebulk._keys.items():")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().rebulk(Rebulk().rebulk(Rebulk().declare_keys(Key("m", int))))
assert list(b.matches("a").declared_keys) == ["m"]
''')

bug("c18-child-grows", "C18",
    "a child that gets another pattern after a first call of its parent",
    "the parent keeps the patterns it knows",
    [(RB, "            patterns = self.effective_patterns(context)\n            for pattern in patterns:", "            key = (len(self._patterns), [bool(r.disabled(context)) for r in self._rebulks])\n            if self._rebulks and any(r._rebulks or any(p.disabled(context) for p in r._patterns) for r in self._rebulks):\n                patterns = self.effective_patterns(context)\n            elif getattr(self, '_known', (None,))[0] == key:\n                patterns = self._known[1]\n            else:\n                patterns = self.effective_patterns(context)\n                self._known = (key, patterns)\n            for pattern in patterns:")],
    '''
from rebulk import Rebulk
child = Rebulk().string("a")
b = Rebulk().rebulk(child)
assert len(b.matches("ab")) == 1
child.string("b")
assert len(b.matches("ab")) == 2
''')

bug("c20-none-item", "C20",
    "an item that is None, only mentioned as a dependency",
    "it is not in any level",
    [(T, "    data.update({item: set() for item in extra_items_in_deps})", "    data.update({item: set() for item in extra_items_in_deps if item is not None})\n    data = {k: v - {None} if None not in data else v for k, v in data.items()}")],
    '''
from rebulk.toposort import toposort
assert list(toposort({1: {None}})) == [{None}, {1}], list(toposort({1: {None}}))
''')

bug("c21-allowed-generator", "C21",
    "allowed names given to check_keys as a generator",
    "some allowed names are reported",
    [(RB, "{allowed_unused} if isinstance(allowed_unused, str) else set(allowed_unused)", "{allowed_unused} if isinstance(allowed_unused, str) else allowed_unused")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().declare_keys(Key("m", int), Key("n", int))
assert b.check_keys(allowed_unused=(n for n in ["n", "m"])) == []
''')

bug("c24-attribute-error", "C24",
    "a formatter that raises AttributeError while declared keys are checked",
    "the error is lost",
    [(M, "            value = match.value\n            if value is None or isinstance(value, key.value_type):", "            value = getattr(match, \"value\", None)\n            if value is None or isinstance(value, key.value_type):")],
    '''
from rebulk import Rebulk, Key, debug
debug.CHECK_DECLARED_KEYS = True
def f(s): raise AttributeError("boom")
try: Rebulk().declare_keys(Key("n", int, f)).string("a", name="n").matches("a")
except AttributeError: pass
else: raise SystemExit("lost")
''')

bug("c16-to-truthy", "C16",
    "a collection whose first match has an empty value",
    "to(str) raises LookupError",
    [(M, "            if not self._delegate:\n                raise LookupError", "            if not self._delegate or not (self[0].value or self[0].value is False):\n                raise LookupError")],
    '''
from rebulk import Rebulk
assert Rebulk().string("0", formatter=int).matches("0").to(int) == 0
''')

bug("c12-callable-defaults", "C12",
    "a functional pattern whose keyword-only argument is an option of the pattern",
    "keyword-only arguments are not given",
    [(L, "    names = argspec.args + argspec.kwonlyargs", "    names = argspec.args + [name for name in argspec.kwonlyargs if name not in (argspec.kwonlydefaults or {})]")],
    '''
from rebulk import Rebulk
seen = []
def f(string, *, name="none"):
    seen.append(name)
Rebulk().functional(f, name="given").matches("a")
assert seen == ["given"], seen
''')

bug("c23-post-processor-adopts", "C23",
    "several expressions in one pattern, the same text",
    "a match found twice at one place is reported once",
    [(P, "                matches.extend(self._process_matches(match, match_index))", "                matches.extend(m for m in self._process_matches(match, match_index) if m not in matches[-1:] or m.parent)")],
    '''
from rebulk import Rebulk
assert len(Rebulk().regex("a", "a|b").matches("a")) == 2
''')

bug("c26-equal-priority-hidden", "C26",
    "a rule at POST_PROCESS that makes a match private",
    "private matches are also removed at the end of that stage",
    [(R, "        return ret\n\n\ndef execute_rule(", "        if any(rule.priority == -2048 for rule, _ in ret):\n            for match in [match for match in matches if match.private is True]:\n                matches.remove(match)\n        return ret\n\n\ndef execute_rule("), (R, "        ret: list[tuple[CustomRule, Any]] = []\n        positions", "        ret: list[tuple[CustomRule, Any]] = list()\n        positions")],
    '''
from rebulk import Rebulk, CustomRule
class Hide(CustomRule):
    priority = -3000
    def when(self, matches, context): return True
    def then(self, matches, when_response, context): matches[0].private = True
b = Rebulk().rules(Hide).string("a").string("b", private=True)
assert [m.value for m in b.matches("ab")] == ["a"]
''')
