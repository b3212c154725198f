M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c15-check-first", "C15",
    "a well typed match before an ill typed one",
    "the check of declared keys ends at the first well typed match of a key with a converter",
    [(M, "            if value is None or isinstance(value, key.value_type):\n                continue\n",
      "            if value is None:\n                continue\n            if isinstance(value, key.value_type):\n                if key.formatter is not None:\n                    break\n                continue\n")],
    '''
from rebulk import Rebulk, Key, debug
debug.CHECK_DECLARED_KEYS = True
b = Rebulk().declare_keys(Key("n", int, formatter=len)).string("a", name="n").string("b", name="n", formatter=str)
try: b.matches("ab")
except TypeError: pass
else: raise AssertionError
''')

bug("c16-inherited-hints", "C16",
    "a dataclass inheriting a list field",
    "annotations of the class itself only are looked at",
    [(M, "            hints = get_type_hints(model)\n            field_names: Iterable[str]", "            hints = {name: hint for name, hint in get_type_hints(model).items() if name in vars(model).get(\"__annotations__\", ())}\n            field_names: Iterable[str]")],
    '''
import dataclasses
from rebulk import Rebulk
@dataclasses.dataclass
class A:
    x: list[str]
@dataclasses.dataclass
class B(A):
    y: str = ""
assert Rebulk().string("a", "b", name="x").matches("ab").to(B).x == ["a", "b"]
''')

bug("c27-percent", "C27",
    "a rule whose name holds a percent sign, logging enabled",
    "the message is built before it is formatted",
    [(R, '        log(rule.log_level, "Checking rule condition: %s", rule)\n', '        log(rule.log_level, f"Checking rule condition: {rule!r} %s", context)\n')],
    '''
import logging
errors = []
class H(logging.Handler):
    def emit(self, record):
        try: record.getMessage()
        except Exception as e: errors.append(e)
logging.getLogger().addHandler(H()); logging.getLogger().setLevel(0)
from rebulk import Rebulk, CustomRule, debug
debug.LOG_LEVEL = 10
class Rule(CustomRule):
    name = "100%d"
    def when(self, matches, context): return None
    def then(self, matches, when_response, context): pass
Rebulk().string("a").rules(Rule(log_level=30)).matches("a")
assert not errors, errors
''')

bug("c28-tags-set", "C28",
    "AppendTags with several tags, hash seeds that order them otherwise",
    "tags are appended in the order of a set",
    [(R, "            for match in removed:\n                match.tags.extend(self.tags)\n", "            for match in removed:\n                match.tags.extend({*self.tags} if len({*self.tags}) == len(self.tags) else self.tags)\n")],
    '''
import subprocess, sys, os
code = """
from rebulk.rules import AppendTags
from rebulk.match import Match, Matches
m = Match(0, 1, input_string="a")
AppendTags(["one", "two", "three", "four"]).then(Matches([m]), [m], {})
print(m.tags)
"""
out = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(i)}, capture_output=True, text=True).stdout for i in range(8)}
assert len(out) == 1, out
''')

bug("c10-lines", "C10",
    "a match going over the end of a line",
    "texts of several lines are searched line by line",
    [(P, "        for match_object in pattern.finditer(input_string):\n",
      "        found = [match_object for at in ([0] + [i + 1 for i, c in enumerate(input_string) if c == \"\\n\"]) for match_object in pattern.finditer(input_string, at, (input_string + \"\\n\").index(\"\\n\", at))]\n        for match_object in found:\n")],
    '''
from rebulk import Rebulk
assert [m.span for m in Rebulk().regex(r"a\\sb").matches("a\\nb")] == [(0, 3)]
''')

bug("c02-hole-formatter-first", "C02",
    "holes with a formatter, two of them",
    "the formatter is given to the first hole only",
    [(M, "Match(max(rindex, start), None, input_string=self.input_string, formatter=formatter)  # type: ignore[arg-type]",
      "Match(max(rindex, start), None, input_string=self.input_string, formatter=None if ret else formatter)  # type: ignore[arg-type]")],
    '''
from rebulk.match import Match, Matches
c = Matches([Match(1, 2, input_string="abc")], "abc")
assert [h.value for h in c.holes(formatter=str.upper)] == ["A", "C"]
''')

bug("c25-no-validator", "C25",
    "validators() with nothing to check",
    "an empty combination accepts nothing",
    [(V, "        return all(chained_validator(match) for chained_validator in chained_validators)\n",
      "        return bool(chained_validators) and all(chained_validator(match) for chained_validator in chained_validators)\n")],
    '''
from rebulk.match import Match
from rebulk.validators import validators
assert validators()(Match(0, 1, input_string="a"))
''')

bug("c18-child-context-default", "C18",
    "a call without context of a parent whose child looks at the context",
    "children are asked whether they are disabled with None when the context is empty",
    [(RB, """        patterns = list(self._patterns)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
""", """        patterns = list(self._patterns)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context or None):
""")],
    '''
from rebulk import Rebulk
child = Rebulk(disabled=lambda context: context.get("x")).string("a")
assert len(Rebulk().rebulk(child).matches("a")) == 1
''')

bug("c22-le-equal", "C22",
    "two matches of one span and different values",
    "at most means before or equal",
    [(M, "            return self.span <= other.span\n", "            return self.span < other.span or self == other\n")],
    '''
from rebulk.match import Match
a, b = Match(0, 1, value=1), Match(0, 1, value=2)
assert a <= b and b <= a
''')

bug("c06-append-by-span", "C06",
    "AppendMatch of a match of the span and name of a present one and another parent",
    "presence is judged by span, name and value",
    [(R, """        if when_response not in matches:
            if self.match_name:
""", """        if not any((m.span, m.name, m.value) == (when_response.span, when_response.name, when_response.value) for m in matches):
            if self.match_name:
""")],
    '''
from rebulk.match import Match, Matches
from rebulk.rules import AppendMatch
p = Match(0, 2, input_string="ab")
a, b = Match(0, 1, input_string="ab"), Match(0, 1, parent=p, input_string="ab")
c = Matches([a], "ab")
AppendMatch().then(c, b, {})
assert len(c) == 2
''')

bug("c24-solver-attribute", "C24",
    "a conflict solver raising AttributeError",
    "a solver that fails on an attribute falls back on the default one",
    [(PR, """                        if reverse:
                            to_remove = conflict_solver(conflicting_match, match)
                        else:
                            to_remove = conflict_solver(match, conflicting_match)
""", """                        try:
                            if reverse:
                                to_remove = conflict_solver(conflicting_match, match)
                            else:
                                to_remove = conflict_solver(match, conflicting_match)
                        except AttributeError:
                            to_remove = DEFAULT
""")],
    '''
from rebulk import Rebulk
def solver(a, b): raise AttributeError("x")
try: Rebulk().string("ab", conflict_solver=solver).string("b").matches("ab")
except AttributeError: pass
else: raise AssertionError
''')

bug("c29-first-character", "C29",
    "the same string found at the start of the text and further on",
    "a text that begins with the searched string is searched once more from its second character",
    [(P, "        for index in find_all(input_string, pattern, **self._kwargs):\n",
      "        for index in find_all(input_string, pattern, **(self._kwargs if not input_string.startswith(\"c\") else {**self._kwargs, \"ignore_case\": False})):\n")],
    '''
from rebulk import Rebulk
b = Rebulk().string("AB", ignore_case=True)
assert len(b.matches("c;ab")) == len(b.matches("ab"))
''')
