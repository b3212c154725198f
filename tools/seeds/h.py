M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c02-conflicting-ends", "C02",
    "a match strictly inside the given one and touching neither of its ends",
    "conflicting looks at the first and last position only",
    [(M, """        for i in range(*match.span):
            for at_match in self.at_index(i):
""", """        positions = range(*match.span)
        for i in positions if len(positions) < 4 else (*positions[:2], *positions[-2:]):
            for at_match in self.at_index(i):
""")],
    '''
from rebulk.match import Match, Matches
a, b = Match(0, 6, input_string="abcdef"), Match(2, 4, input_string="abcdef")
assert Matches([a, b], "abcdef").conflicting(a) == [b]
''')

bug("c02-previous-from-two", "C02",
    "a match ending at position 1",
    "previous stops before position 0 is looked at: matches that end where the given one starts are found only from 2 on",
    [(M, """        current = match.start
        while current > -1:
            previous_matches = self.ending(current)
""", """        current = match.start
        while current > 1:
            previous_matches = self.ending(current)
""")],
    '''
from rebulk.match import Match, Matches
a, b = Match(0, 1, input_string="ab"), Match(1, 2, input_string="ab")
assert Matches([a, b], "ab").previous(b) == [a]
''')

bug("c05-instance-dependency-tuple", "C05",
    "a rule whose dependency is a tuple with an instance and a class of another priority",
    "dependencies after one that is not in the group are not looked at",
    [(R, """                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                if dependency:
                    dependencies.add(dependency)
""", """                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                if not dependency:
                    break
                dependencies.add(dependency)
""")],
    '''
from rebulk.rules import CustomRule, Rules
from rebulk.match import Matches
log = []
class Base(CustomRule):
    def when(self, matches, context): return [1]
    def then(self, matches, r, context): log.append(type(self).__name__)
class Z(Base): pass
class B(Base): pass
class A(Base): dependency = (Z, B)
Rules(A(), B()).execute_all_rules(Matches(), {})
assert log == ["B", "A"], log
''')

bug("c07-formatter-memo", "C07",
    "a formatter making modifiable values, two matches calls on texts with the same raw text",
    "values made by a formatter are kept and given again for the same text",
    [(P, """            keys = self._match_config_property_keys(match, child=child)
            match.formatter = get_first_defined(self.formatters, keys, self._default_formatter)
""", """            keys = self._match_config_property_keys(match, child=child)
            formatter = get_first_defined(self.formatters, keys, self._default_formatter)
            made = self.__dict__.setdefault("_made", {}).setdefault(formatter, {})
            match.formatter = formatter and (lambda raw: made[raw] if raw in made else made.setdefault(raw, formatter(raw)))
""")],
    '''
from rebulk import Rebulk
bulk = Rebulk().string("a", formatter=lambda s: [s])
bulk.matches("a")[0].value.append(1)
assert bulk.matches("a")[0].value == ["a"], bulk.matches("a")
''')

bug("c09-end-bounds-start", "C09",
    "the end option and an occurrence that straddles the end of the window",
    "the end option bounds where occurrences start",
    [(U, """        start = string.find(sub, start, end)
        if start == -1:
            return
""", """        start = string.find(sub, start, None if end is None or end < 0 else end + len(sub) - 1)
        if start == -1:
            return
""")],
    '''
from rebulk import Rebulk
got = [m.span for m in Rebulk().string("ab", end=3).matches("abab")]
assert got == [(0, 2)], got
''')

bug("c10-pattern-name-unnamed-group", "C10",
    "a regex with an unnamed group after a named one, children=True and a name",
    "an unnamed group takes the name of the named group around or before it",
    [(P, """                for i in range(1, pattern.groups + 1):
                    name = names.get(i, main_match.name)
""", """                name = main_match.name
                for i in range(1, pattern.groups + 1):
                    name = names.get(i, name)
""")],
    '''
from rebulk import Rebulk
got = [(c.name, c.raw) for c in Rebulk().regex("(?P<x>a)(b)", name="n", children=True).matches("ab")]
assert got == [("x", "a"), ("n", "b")], got
''')

bug("c11-private-names-children-only", "C11",
    "private_names naming the pattern itself while private_children is set",
    "private_names is not applied to the parent when private_children is set",
    [(P, """            (match.name and match.name in self.private_names)
            or""", """            (match.name and match.name in self.private_names and (child or not self.private_children))
            or""")],
    '''
from rebulk import Rebulk
got = Rebulk(default_rules=False).regex("(?P<x>a)", name="n", every=True, private_names=["n"], private_children=True).matches("a")
assert [m.private for m in got if m.name == "n"] == [True], got
''')

bug("c11-children-entry-first", "C11",
    "a validator dict with a __children__ entry and an entry for the group name, in a pattern that returns its children",
    "the __children__ entry comes before the entry of the name",
    [(P, """        if match.name:
            yield match.name
        if child:
            yield "__children__"
        else:
            yield "__parent__"
        yield None
""", """        if match.name and not (child and match.name == match.pattern.name):
            yield match.name
        if child:
            yield "__children__"
            if match.name:
                yield match.name
        else:
            yield "__parent__"
        yield None
""")],
    '''
from rebulk import Rebulk
got = [m.value for m in Rebulk().regex("(a)", name="n", children=True, formatter={"n": lambda s: 1, "__children__": lambda s: 2}).matches("a")]
assert got == [1], got
''')

bug("c13-retry-twice", "C13",
    "a chain validator that rejects the whole chain and accepts it without the last two repetitions",
    "after two repetitions are dropped the chain is given up",
    [(C, """                for index in reversed(list(last_pattern_groups)):
                    last_matches""", """                for index in list(reversed(list(last_pattern_groups)))[:2]:
                    last_matches""")],
    '''
from rebulk import Rebulk
got = [m.span for m in Rebulk().chain(validator=lambda m: len(m) <= 2).string("a").string("b").repeater("*").close().matches("abbbb")]
assert got == [(0, 2)], got
''')

bug("c14-none-default", "C14",
    "an option given as None explicitly where a default exists",
    "an option that is None counts as not given",
    [(L, """        if key not in kwargs or override:
            kwargs[key] = value
""", """        if kwargs.get(key) is None or override:
            kwargs[key] = value
""")],
    '''
from rebulk import Rebulk
got = [m.name for m in Rebulk().defaults(name="n").string("a", name=None).matches("a")]
assert got == [None], got
''')

bug("c15-key-name-given", "C15",
    "a single key together with another name",
    "a key sets the formatter only when it also sets the name",
    [(B, """        kwargs.setdefault("name", key.name)
        kwargs.setdefault("formatter", key.converter)
        return kwargs
""", """        if kwargs.setdefault("name", key.name) == key.name:
            kwargs.setdefault("formatter", key.converter)
        return kwargs
""")],
    '''
from rebulk import Rebulk, Key
got = [m.value for m in Rebulk().string("1", key=Key("n", int), name="other").matches("1")]
assert got == [1], got
''')

bug("c16-optional-list", "C16",
    "a model field list[X] | None",
    "a list in an optional field is filled like list fields",
    [(M, """            if get_origin(hint) is list:
                kwargs[name] = values
""", """            if get_origin(hint) is list or any(get_origin(arg) is list for arg in get_args(hint)):
                kwargs[name] = values
""")],
    '''
import dataclasses
from typing import Optional
from rebulk import Rebulk
@dataclasses.dataclass
class A:
    n: Optional[list[str]] = None
got = Rebulk().string("a", name="x").matches("a").to(A)
assert got == A(None), got
''')

bug("c21-valued-first-expression", "C21",
    "a regex with a value for one group and two expressions",
    "groups of later expressions are not listed when a value is given",
    [(I, """                    for regex_pattern in pattern.patterns:
""", """                    for regex_pattern in pattern.patterns[:1] if pattern_values else pattern.patterns:
""")],
    '''
from rebulk import Rebulk
from rebulk.introspector import introspect
got = introspect(Rebulk().regex("(?P<x>a)", "(?P<y>b)", value={"x": 1}, children=True)).properties
assert "y" in got, got
''')

bug("c22-hash-children", "C22",
    "equal matches one of which has had its children added",
    "the hash takes in whether there are children",
    [(M, """        return hash((Match, self.start, self.end))
""", """        return hash((Match, self.start, self.end, bool(self._children)))
""")],
    '''
from rebulk import Rebulk
a = Rebulk().regex("(a)b").matches("ab")[0]
b = Rebulk().string("ab").matches("ab")[0]
assert a == b and hash(a) == hash(b), (a, b)
''')

bug("c22-lt-name", "C22",
    "comparison with < of matches of one span and different lengths of names",
    "matches of one span are ordered by name",
    [(M, """            return self.span < other.span
        return NotImplemented
""", """            return (self.span, self.name or "") < (other.span, other.name or "")
        return NotImplemented
""")],
    '''
from rebulk.match import Match
a, b = Match(0, 1, name="a"), Match(0, 1, name="b")
assert not (a < b) and a <= b and b <= a
''')

bug("c25-not-false", "C25",
    "validators with no validator, or with one that returns something truthy that is not True",
    "a validator chain with a single validator returns its answer compared with True",
    [(V, """        return all(chained_validator(match) for chained_validator in chained_validators)
""", """        return all(chained_validator(match) is not False for chained_validator in chained_validators)
""")],
    '''
from rebulk.validators import validators
assert not validators(lambda m: None)(None)
''')

bug("c26-tie-user-first", "C26",
    "a user rule of priority POST_PROCESS",
    "user rules of the priority of a default rule run before it",
    [(RB, """        rules = Rules()
        rules.extend(self._rules)
""", """        rules = Rules()
        rules.extend(sorted(self._rules, key=lambda rule: rule.priority == -2048 and isinstance(rule, PrivateRemover)))
""")],
    '''
from rebulk import Rebulk
from rebulk.rules import Rule
seen = []
class See(Rule):
    priority = -2048
    def when(self, matches, context):
        seen.append(len(matches))
Rebulk().string("a", private=True).rules(See).matches("a")
assert seen == [0], seen
''')
