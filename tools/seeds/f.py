M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c28-default-tags", "C28",
    "a tag given both by defaults and by a pattern, in a process with another hash seed",
    "tags given twice are dropped by means of a set, so the order of the tags depends on the hash seed",
    [(L, """                kwargs[key] = list(value) + kwargs[key]
""", """                shared = set(value) & set(kwargs[key])
                kwargs[key] = list(set(value) | set(kwargs[key])) if len(shared) > 1 else list(value) + kwargs[key]
""")],
    """
import os, subprocess, sys
code = "from rebulk import Rebulk; print(Rebulk().defaults(tags=['a', 'b', 'c']).string('x', tags=['c', 'a', 'd']).matches('x')[0].tags)"
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True).stdout for seed in range(8)}
assert len(out) == 1, out
""")

bug("c28-conflicting-addresses", "C28",
    "a match conflicting with several ones whose addresses are not ascending",
    "the conflicting matches come in the order of their addresses",
    [(M, """            for at_match in self.at_index(i):
                if at_match is not match and not any(at_match is found for found in ret):
                    ret.append(at_match)

        return filter_index(ret, predicate, index)
""", """            found = IdentitySet(ret)
            found.update(at_match for at_match in self.at_index(i) if at_match is not match)
            ret = _BaseMatches._base(found)

        return filter_index(ret, predicate, index)
"""), (M, "from .utils import is_iterable\n", "from .utils import IdentitySet, is_iterable\n")],
    """
from rebulk.match import Match, Matches
for turn in (False, True):
    several = sorted((Match(0, 3, value=i) for i in range(40)), key=id, reverse=turn)
    whole = Match(0, 5, value="whole")
    got = Matches([whole, *several]).conflicting(whole)
    assert [m.value for m in got] == [m.value for m in several], turn
""")

bug("c28-names-order", "C28",
    "the order of the names of a result, in a process with another hash seed",
    "the names of a collection come as a set, so to_dict and names are ordered by hashes",
    [(M, "        return self._name_dict.keys()\n", "        return dict.fromkeys(set(self._name_dict)).keys()\n")],
    """
import os, subprocess, sys
code = "from rebulk import Rebulk; print(list(Rebulk().regex('(?P<ab>a)(?P<cd>b)(?P<ef>c)(?P<gh>d)', children=True).matches('abcd').names))"
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True).stdout for seed in range(8)}
assert len(out) == 1, out
""")

bug("c28-assert-repeater", "C28",
    "python -O, and a chain whose part does not repeat as often as it has to",
    "the minimum of a repeater is checked by an assertion, which python -O leaves out",
    [(C, """        if max_match_index + 1 < self.repeater_start:
            raise _InvalidChainException(matches)
""", """        try:
            assert max_match_index + 1 >= self.repeater_start
        except AssertionError:
            raise _InvalidChainException(matches) from None
""")],
    """
import subprocess, sys
code = "from rebulk import Rebulk; print(Rebulk().chain().string('a').string('b').repeater('{2}').close().matches('ab'))"
out = [subprocess.run([sys.executable, *flags, "-c", code], capture_output=True, text=True).stdout for flags in ([], ["-O"])]
assert out[0] == out[1], out
""")

bug("c28-child-order", "C28",
    "two rules of a child rebulk whose classes are iterated by a set in another order",
    "rules of children are taken in the order of a set",
    [(RB, """        rules.extend(self._rules)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
""", """        found = set()
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                found |= set(rebulk.effective_rules(context)) - set(self._rules)
        rules.extend([*self._rules, *found])
""")],
    """
from abc import ABCMeta
from rebulk import CustomRule, Rebulk
log = []
class Meta(ABCMeta):
    def __hash__(cls):
        return cls.__dict__.get("place", 0)
def make(name, place):
    return Meta(name, (CustomRule,), {"place": place, "when": lambda s, m, c: log.append(name), "then": lambda s, m, w, c: None})
for places in ((0, 1), (1, 0)):
    del log[:]
    Rebulk().rebulk(Rebulk(default_rules=False).rules(*[make(n, p) for n, p in zip("AB", places)])).matches("x")
    assert log == list("AB"), (places, log)
""")
