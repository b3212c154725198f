M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))

bug("c13-zero-repeater", "C13",
    "a part repeated zero times",
    "a maximum of zero counts as no maximum",
    [(C, "        if self.repeater_end is not None:\n            truncated =", "        if self.repeater_end:\n            truncated =")],
    '''
from rebulk import Rebulk
got = Rebulk().chain().string("a").string("b").repeater("{0,0}").close().matches("abb")
assert [m.span for m in got] == [(0, 1)], got
''')

bug("c24-disabled-keyerror", "C24",
    "a disabled function reading a key which is absent from the context",
    "a disabled function that does not find its key disables nothing",
    [(RB, "            for pattern in patterns:\n                if not pattern.disabled(context):", "            for pattern in patterns:\n                try:\n                    pattern_disabled = pattern.disabled(context)\n                except KeyError:\n                    pattern_disabled = False\n                if not pattern_disabled:")],
    '''
from rebulk import Rebulk
try:
    Rebulk().string("a", disabled=lambda context: context["x"]).matches("a")
except KeyError: pass
else: raise AssertionError
''')

bug("c12-static-call", "C12",
    "a callable object whose __call__ is a static method",
    "its first argument is taken for self",
    [(L, "not isinstance(callable_, partial) and ismethod(callable_.__call__)", "not isinstance(callable_, partial)")],
    '''
from rebulk import Rebulk
class F:
    @staticmethod
    def __call__(string, context): return (0, 1)
assert len(Rebulk().functional(F()).matches("ab")) == 1
''')

bug("c12-unwrap", "C12",
    "a decorated function taking other arguments than the one it wraps",
    "the signature looked at is that of the wrapped function",
    [(L, "    argspec = getfullargspec(callable_)\n    return argspec_args(argspec, _is_bound(callable_), *args, **kwargs)", "    argspec = getfullargspec(unwrap(callable_))\n    return argspec_args(argspec, _is_bound(callable_), *args, **kwargs)"),
     (L, "from inspect import getfullargspec, isclass, ismethod, isroutine", "from inspect import getfullargspec, isclass, ismethod, isroutine, unwrap")],
    '''
from functools import wraps
from rebulk import Rebulk
def f(string, context): return (0, 1)
@wraps(f)
def g(string): return f(string, None)
assert len(Rebulk().functional(g).matches("ab")) == 1
''')

bug("c12-int-subclass", "C12",
    "a span given with integers of a derived type",
    "only plain integers are recognised at the start of a single span",
    [(P, 'hasattr(ret, "__getitem__") and isinstance(ret[0], int))', 'hasattr(ret, "__getitem__") and type(ret[0]) is int)')],
    '''
from rebulk import Rebulk
class I(int): pass
assert [m.span for m in Rebulk().functional(lambda s: (I(0), I(1))).matches("ab")] == [(0, 1)]
''')

bug("c13-span-end-last", "C13",
    "a chain whose last part returns its parent before its children",
    "the chain ends where its last match ends",
    [(C, "            if end is None or end < match.end:\n                end = match.end", "            end = match.end")],
    '''
from rebulk import Rebulk
got = Rebulk().chain().string("a").regex("(?P<x>b)c", every=True).close().matches("abc")
assert [m.span for m in got] == [(0, 3)], got
''')

bug("c24-generator-typeerror", "C24",
    "a functional pattern whose generator raises TypeError",
    "what cannot be iterated is taken for a single return",
    [(P, "            else:\n                args_iterable = ret\n", "            else:\n                try:\n                    args_iterable = list(ret)\n                except TypeError:\n                    args_iterable = []\n")],
    '''
from rebulk import Rebulk
def f(string):
    yield 0, 1
    raise TypeError("mine")
try: Rebulk().functional(f).matches("ab")
except TypeError as e: assert str(e) == "mine"
else: raise AssertionError
''')

bug("c15-key-subclass", "C15",
    "a key of a class derived from Key",
    "a single key of a derived class is taken for a list of keys",
    [(M, "        if isinstance(index, Key):", "        if type(index) is Key:")],
    '''
from rebulk import Rebulk, Key
class K(Key): pass
k = K("n", int)
assert Rebulk().regex(r"\\d", key=k).matches("a1")[k] == 1
''')

bug("c14-overrides-list", "C14",
    "overrides given as a tuple or a set",
    "only lists of overrides are looked at",
    [(B, "    if override_keys:\n        for override_key in override_keys:", "    if isinstance(override_keys, list):\n        for override_key in override_keys:")],
    '''
from rebulk import Rebulk
m = Rebulk().defaults(tags=["d"]).string("a", tags=["x"], overrides=("tags",)).matches("a")[0]
assert m.tags == ["x"], m.tags
''')

bug("c15-empty-text", "C15",
    "an empty text",
    "nothing is done for an empty text, so the declared keys are not carried",
    [(RB, "        if context is None:\n            context = {}\n\n        if not self.disabled(context):\n            matches.declared_keys", "        if not string:\n            return matches\n        if context is None:\n            context = {}\n\n        if not self.disabled(context):\n            matches.declared_keys")],
    '''
from rebulk import Rebulk, Key
k = Key("n", int)
assert list(Rebulk().declare_keys(k).regex("(?P<n>a)").matches("").declared_keys) == ["n"]
''')

bug("c07-declared-keys-shared", "C07",
    "the declared keys of a result modified",
    "the result carries the dict of declared keys of the Rebulk itself",
    [(RB, "        keys: dict[str, Key[Any]] = dict(self._keys)\n        for rebulk in self._rebulks:", "        keys: dict[str, Key[Any]] = dict(self._keys) if self._rebulks else self._keys\n        for rebulk in self._rebulks:")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().declare_keys(Key("n", int)).regex("(?P<n>1)")
b.matches("1").declared_keys.clear()
assert list(b.matches("1").declared_keys) == ["n"]
''')

bug("c26-empty-text", "C26",
    "an empty text and a rule that runs on it",
    "rules are not executed when nothing was found",
    [(RB, "        self._execute_rules(matches, context)\n\n        return matches", "        if matches or matches.markers:\n            self._execute_rules(matches, context)\n\n        return matches")],
    '''
from rebulk import Rebulk, Rule, AppendMatch
from rebulk.match import Match
class R(Rule):
    consequence = AppendMatch
    def when(self, matches, context): return Match(0, 1, input_string="ab")
assert len(Rebulk().rules(R).matches("ab")) == 1
''')

bug("c05-response-once", "C05",
    "a rule whose condition returns a generator",
    "the response is turned into a list before it is handed to the consequence",
    [(R, "            rule.then(matches, when_response, context)\n            return when_response", "            rule.then(matches, list(when_response) if inspect.isgenerator(when_response) else when_response, context)\n            return when_response")],
    '''
from rebulk import Rebulk
from rebulk.match import Matches
from rebulk.rules import CustomRule, Rules
seen = []
class R(CustomRule):
    def when(self, matches, context): return (i for i in range(3))
    def then(self, matches, when_response, context): seen.append(when_response)
ret = Rules(R).execute_all_rules(Matches(), {})
assert seen[0] is ret[0][1]
''')

bug("c18-child-default-context", "C18",
    "a child disabled by the context, in a child of a child",
    "children of children are asked without the context",
    [(RB, "                extend_safe(patterns, rebulk.effective_patterns(context))", "                extend_safe(patterns, rebulk.effective_patterns(context if rebulk._patterns else {}))")],
    '''
from rebulk import Rebulk
b = Rebulk().rebulk(Rebulk().rebulk(Rebulk(disabled=lambda c: c.get("off")).string("a")))
assert not b.matches("a", {"off": 1})
''')

bug("c25-after-raw-length", "C25",
    "a match ending before the end of a text, whose raw text holds more than its span",
    "the character after is looked for in the text of the last occurrence",
    [(V, "    return input_string[match.end] in chars", "    return input_string[match.end : match.end + 1] in (chars if isinstance(chars, str) else tuple(chars)) or input_string[match.end:].isspace() and not chars")],
    '''
from functools import partial
from rebulk import Rebulk
from rebulk.validators import chars_after
assert not Rebulk().string("a", validator=partial(chars_after, "")).matches("a ")
''')

bug("c22-tagged-all", "C22",
    "a match asked for several tags of which it has only the last one",
    "only the first tag asked for counts when there are more than two",
    [(M, "        return any(tag in self.tags for tag in tags)", "        return any(tag in self.tags for tag in tags[:2])")],
    '''
from rebulk.match import Match
assert Match(0, 1, tags=["c"], input_string="a").tagged("a", "b", "c")
''')

