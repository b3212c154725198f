M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))

bug("c06-consequence-tuple", "C06",
    "a rule whose consequences are given as a tuple or another iterable than a list",
    "they are not taken one by one",
    [(R, "        if is_iterable(self.consequence):\n            if not", "        if isinstance(self.consequence, list):\n            if not")],
    '''
from rebulk import Rebulk, Rule, RemoveMatch, AppendTags
class X(Rule):
    consequence = (RemoveMatch, AppendTags(["t"]))
    def when(self, matches, context): return [matches[0], matches[1]]
m = Rebulk().string("a", "b").rules(X).matches("ab")
assert [(x.value, x.tags) for x in m] == [("b", ["t"])], m
''')

bug("c06-response-indexed", "C06",
    "several consequences and a response which is a generator",
    "responses are taken by their position in a list",
    [(R, "            iterator = iter(when_response)\n            for cons in self.consequence:", "            for position, cons in enumerate(self.consequence):"),
     (R, "cons.then(matches, next(iterator), context)", "cons.then(matches, when_response[position], context)")],
    '''
from rebulk import Rebulk, Rule, RemoveMatch, AppendTags
class X(Rule):
    consequence = [RemoveMatch, AppendTags(["t"])]
    def when(self, matches, context): return (m for m in list(matches))
m = Rebulk().string("a", "b").rules(X).matches("ab")
assert [(x.value, x.tags) for x in m] == [("b", ["t"])], m
''')

bug("c05-same-name", "C05",
    "two rule classes of the same name at the same priority",
    "rules are told apart by the name of their class",
    [(R, "        if rule.__class__ in class_dict:", "        if rule.__class__.__qualname__ in {other.__qualname__ for other in class_dict}:")],
    '''
from rebulk.rules import CustomRule, Rules
from rebulk.match import Matches
seen = []
def make(tag):
    class X(CustomRule):
        def when(self, matches, context): seen.append(tag)
        def then(self, matches, when_response, context): pass
    return X
Rules(make(1), make(2)).execute_all_rules(Matches(), {})
assert seen == [1, 2]
''')

bug("c25-falsy-intermediate", "C25",
    "a chain of formatters in which one gives a falsy value",
    "the formatters after it are not called",
    [(F, "            input_string = chained_formatter(input_string)", "            input_string = chained_formatter(input_string) if input_string else input_string")],
    '''
from rebulk.formatters import formatters
assert formatters(int, str)("0") == "0"
''')

bug("c25-container-only", "C25",
    "characters given as an object that only says whether it contains one",
    "the characters are gone through",
    [(V, "[match.start - 1] in chars", "[match.start - 1] in tuple(chars)")],
    '''
from rebulk.match import Match
from rebulk.validators import chars_before
class Upper:
    def __contains__(self, c): return c.isupper()
assert chars_before(Upper(), Match(1, 2, input_string="Ab"))
''')

bug("c25-validators-once", "C25",
    "a validator chain without side effects asked twice",
    "the chain remembers the validators that have passed",
    [(V, "    def validator_chain(match: Match) -> bool:\n        return all(chained_validator(match) for chained_validator in chained_validators)", "    passed: list[tuple[Callable[[Match], bool], Match]] = []\n\n    def validator_chain(match: Match) -> bool:\n        for chained_validator in chained_validators:\n            if (chained_validator, match) not in passed:\n                if not chained_validator(match):\n                    return False\n                passed.append((chained_validator, match))\n        return True")],
    '''
from functools import partial
from rebulk.match import Match
from rebulk.validators import validators
v = validators(lambda m: m.input_string[m.end:] != "x")
assert v(Match(0, 1, input_string="a"))
assert not v(Match(0, 1, input_string="ax"))
''')

bug("c15-all-none", "C15",
    "all the values of a key when one of them is None",
    "values that are None are left out",
    [(M, "        return [match.value for match in self._name_dict.get(key.name, ())]", "        return [value for match in self._name_dict.get(key.name, ()) if (value := match.value) is not None]")],
    '''
from rebulk import Rebulk, Key
k = Key("n", str, lambda s: None if s == "a" else s)
assert Rebulk().regex("a|b", key=k).matches("ab").all(k) == [None, "b"]
''')

bug("c18-declared-twice", "C18",
    "the same name declared by two children",
    "the last child's key is the one that counts",
    [(RB, "                    keys.setdefault(name, key)\n        return keys", "                    if name not in self._keys:\n                        keys[name] = key\n        return keys")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().rebulk(Rebulk().declare_keys(Key("n", int)), Rebulk().declare_keys(Key("n", str)))
assert b.effective_keys()["n"].value_type is int
''')

bug("c21-check-depth", "C21",
    "a key declared by a child of a child",
    "declared keys are only looked for one level down",
    [(RB, "            for name, key in rebulk._keys.items():\n                declared.setdefault(name, key)\n            patterns", "            if rebulk in self._rebulks:\n                for name, key in rebulk._keys.items():\n                    declared.setdefault(name, key)\n            patterns")],
    '''
from rebulk import Rebulk, Key
assert Rebulk().rebulk(Rebulk().rebulk(Rebulk().declare_keys(Key("n", int)))).check_keys() == ["n"]
''')

bug("c14-nested-chain-defaults", "C14",
    "defaults set on a chain nested in another after the inner one was opened",
    "a nested chain shares the string defaults of the chain around it",
    [(B, "        self._string_defaults = deepcopy(source._string_defaults)", "        self._string_defaults = source._string_defaults if isinstance(source, ChainBuilder) else deepcopy(source._string_defaults)")],
    '''
from rebulk import Rebulk
b = Rebulk()
outer = b.chain()
inner = outer.chain(children=True)
inner.string_defaults(name="n")
outer.string("b")
inner.string("a")
m = b.matches("ab")
assert not any(c.name == "n" and c.value == "b" for x in m for c in x.children), m
''')

bug("c14-override-nothing", "C14",
    "overrides naming options whose value is the default one",
    "overridden options are only put back when they changed in length",
    [(B, "    kwargs.update(backup)", "    kwargs.update({key: value for key, value in backup.items() if value})")],
    '''
from rebulk import Rebulk
m = Rebulk().defaults(tags=["d"]).string("a", tags=[], overrides=["tags"]).matches("a")[0]
assert m.tags == []
''')

bug("c07-default-tags-shared", "C07",
    "a rule adding tags to the matches of a pattern with tags, called again",
    "matches share the list of tags of their pattern",
    [(M, "        self.tags: list[str] = list(ensure_list(tags))", "        self.tags: list[str] = ensure_list(tags)")],
    '''
from rebulk import Rebulk
b = Rebulk().string("a", tags=["t"])
b.matches("a")[0].tags.append("u")
assert b.matches("a")[0].tags == ["t"]
''')

bug("c26-declared-after-rules", "C26",
    "a rule that converts the matches to a model",
    "the declared keys are only set on the result after the rules ran",
    [(RB, "        if not self.disabled(context):\n            matches.declared_keys = self.effective_keys(context)\n\n        self._matches_patterns(matches, context)", "        self._matches_patterns(matches, context)"),
     (RB, "        if debug.CHECK_DECLARED_KEYS:\n            matches.check_declared_keys()\n\n        self._execute_rules(matches, context)", "        keys = {} if self.disabled(context) else self.effective_keys(context)\n        if debug.CHECK_DECLARED_KEYS:\n            matches.declared_keys = keys\n            matches.check_declared_keys()\n\n        self._execute_rules(matches, context)\n        matches.declared_keys = keys")],
    '''
from rebulk import Rebulk, Rule, Key
seen = []
class X(Rule):
    def when(self, matches, context): seen.append(list(matches.declared_keys))
Rebulk().declare_keys(Key("n", int)).string("1", name="n").rules(X).matches("1")
assert seen == [["n"]], seen
''')
