M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))



bug("c01-replace-same-span", "C01",
    "a match replaced by one of another name at the same span",
    "lookups are kept when a match is replaced by one at the same span",
    [(M, "        self._delegate[index] = match  # type: ignore[index,assignment]\n        self._reset_index()\n",
      "        replaced = self._delegate[index]\n        self._delegate[index] = match  # type: ignore[index,assignment]\n        if isinstance(index, slice) or replaced.span != match.span:\n            self._reset_index()\n")],
    '''
from rebulk.match import Match, Matches
ms = Matches([Match(0, 1, name="a")], input_string="x")
assert ms.named("a")
ms[0] = Match(0, 1, name="b")
assert not ms.named("a") and ms.named("b")
''')

bug("c17-list-span", "C17",
    "a span given to crop as a list",
    "a list of two integers is taken for two crops",
    [(M, "        if not is_iterable(crops) or (len(crops) == 2 and isinstance(crops[0], int)):\n", "        if not is_iterable(crops) or (isinstance(crops, tuple) and len(crops) == 2 and isinstance(crops[0], int)):\n")],
    '''
from rebulk.match import Match
assert [m.span for m in Match(0, 5, input_string="abcde").crop([1, 2])] == [(0, 1), (2, 5)]
''')

bug("c18-disabled-truthy", "C18",
    "disabled given as a truthy value other than True",
    "only True disables a rebulk",
    [(RB, "            self.disabled = lambda context: disabled\n", "            self.disabled = lambda context: disabled is True\n")],
    '''
from rebulk import Rebulk
assert not Rebulk(disabled=1).string("a").matches("a")
''')

bug("c25-joined", "C25",
    "characters given as a list holding longer strings",
    "a character is looked for in the concatenation of the given strings",
    [(V, "    return input_string[match.end] in chars\n", "    return input_string[match.end] in \"\".join(chars)\n")],
    '''
from rebulk.match import Match
from rebulk.validators import chars_after
assert not chars_after(["xy"], Match(0, 1, input_string="ax"))
''')

bug("c04-truthy-private", "C04",
    "private given as a truthy value other than True",
    "only matches whose private flag is True are removed",
    [(PR, "        return [match for match in matches if match.private]\n", "        return [match for match in matches if match.private is True]\n")],
    '''
from rebulk import Rebulk
assert not Rebulk().string("a", private=1).matches("a")
''')

bug("c16-dict-order", "C16",
    "matches found in another order than that of their spans",
    "names and values are those of the list order",
    [(M, "        ret: MatchesDict[Any] = MatchesDict()\n        for match in sorted(self):\n", "        ret: MatchesDict[Any] = MatchesDict()\n        for match in self:\n")],
    '''
from rebulk import Rebulk
assert list(Rebulk().string("b", name="b").string("a", name="a").matches("ab").to_dict()) == ["a", "b"]
''')

bug("c07-consequence-kept", "C07",
    "a consequence class whose instances have a state",
    "the instance of the consequence made for one call serves the following ones",
    [(R, "            cons = self.consequence\n            if inspect.isclass(cons):\n                cons = cons()\n", "            cons = self.consequence\n            if inspect.isclass(cons):\n                cons = self.consequence = cons()  # type: ignore[misc]\n")],
    '''
from rebulk import Rebulk, Rule
from rebulk.rules import Consequence
class Once(Consequence):
    def __init__(self): self.done = False
    def then(self, matches, when_response, context):
        if not self.done: matches.clear()
        self.done = True
class R(Rule):
    consequence = Once
    def when(self, matches, context): return True
b = Rebulk().string("a").rules(R)
assert not b.matches("a") and not b.matches("a")
''')

bug("c15-first-by-span", "C15",
    "matches of a key found in another order than that of their spans",
    "matches[key] gives the leftmost match instead of the first one",
    [(M, "            return named[0].value if named else None\n", "            return min(named).value if named else None\n")],
    '''
from rebulk import Rebulk, Key
k = Key("k", str)
ms = Rebulk().string("b", key=k).string("a", key=k).matches("ab")
assert ms[k] == "b" == ms.all(k)[0]
''')

bug("c05-dependency-subclass", "C05",
    "a rule depending on the base class of another rule",
    "a dependency also stands for the rules of derived classes",
    [(R, "                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)\n                if dependency:\n                    dependencies.add(dependency)\n",
      "                wanted = dependency if inspect.isclass(dependency) else dependency.__class__\n                dependencies.update(other for class_, other in class_dict.items() if issubclass(class_, wanted))\n")],
    '''
from rebulk import Rebulk, CustomRule
seen = []
class Base(CustomRule):
    def when(self, matches, context): seen.append(type(self).__name__)
    def then(self, matches, when_response, context): pass
class First(Base): pass
class Parent(Base): pass
class Derived(Parent): pass
class User(Base): dependency = Parent
Rebulk().rules(User, Derived).matches("a")
assert seen == ["User", "Derived"], seen
''')

bug("c12-skip-none-first", "C12",
    "a generator whose first item is an empty span",
    "nothing is returned when the first item is empty",
    [(P, "            for args in args_iterable:\n                if isinstance(args, dict):\n", "            for args in args_iterable:\n                if not isinstance(args, dict) and args[0] == args[1] == 0:\n                    return\n                if isinstance(args, dict):\n")],
    '''
from rebulk import Rebulk
assert len(Rebulk().functional(lambda s: [(0, 0), (0, 1)]).matches("a")) == 1
''')

bug("c24-children-lost", "C24",
    "a validator raising in the middle of a chain, the chain used again",
    "parts searched by a call are kept for the next one when it fails",
    [(C, "            current_chain_matches: list[Match] = []\n", "            current_chain_matches: list[Match] = self.__dict__.setdefault(\"_current\", [])\n"),
     (C, "                match = self._build_chain_match(current_chain_matches, input_string)\n                chain_matches.append(match)\n", "                match = self._build_chain_match(current_chain_matches, input_string)\n                chain_matches.append(match)\n            self.__dict__.pop(\"_current\", None)\n")],
    '''
from rebulk import Rebulk
fail = True
def check(match):
    if fail: raise KeyError
    return True
b = Rebulk().chain().string("a").string("b", validator=check).close()
try: b.matches("ab")
except KeyError: pass
fail = False
assert [len(m.children) for m in b.matches("ab")] == [2]
''')
