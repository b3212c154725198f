M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))



bug("c05-clamped-priority", "C05",
    "two rules whose priorities are both above 4096",
    "priorities beyond twice those of the default rules are all the same",
    [(R, "groupby(sorted(self), lambda rule: rule.priority)", "groupby(sorted(self), lambda rule: max(-4096, min(4096, rule.priority)))")],
    '''
from rebulk import Rebulk, CustomRule
seen = []
class Base(CustomRule):
    def when(self, matches, context): seen.append(type(self).__name__)
    def then(self, matches, when_response, context): pass
class Low(Base):
    priority = 5000
class High(Base):
    priority = 6000
    dependency = Low
Rebulk().rules(Low, High).matches("a")
assert seen == ["High", "Low"], seen
''')

bug("c26-rule-made", "C26",
    "a match without a pattern, added by a rule that runs before conflicts are solved",
    "conflicts of matches made by rules are not solved",
    [(PR, "public_matches = [match for match in matches if not match.private]", "public_matches = [match for match in matches if match.pattern and not match.private]")],
    '''
from rebulk import Rebulk, Rule, AppendMatch
from rebulk.match import Match
class R(Rule):
    priority = 5000
    consequence = AppendMatch
    def when(self, matches, context): return [Match(0, 2, input_string="abc"), Match(0, 3, input_string="abc")]
assert [m.span for m in Rebulk().rules(R).matches("abc")] == [(0, 3)]
''')

bug("c20-sorted-message", "C20",
    "a cycle of items that cannot be ordered",
    "the message of the error sorts the items, which fails for some",
    [(T, "', '.join(repr(x) for x in cyclic.items())", "', '.join(repr(x) for x in sorted(cyclic.items()))")],
    '''
from rebulk.toposort import toposort, CyclicDependency
try: list(toposort({1: {"a"}, "a": {1}}))
except CyclicDependency: pass
''')

bug("c16-first-enforce", "C16",
    "to_dict with both first_value and enforce_list",
    "the matches attribute holds the first match only",
    [(M, "            ret.matches[match.name].append(match)\n", "            if not (first_value and enforce_list and match.name in ret):\n                ret.matches[match.name].append(match)\n")],
    '''
from rebulk import Rebulk
d = Rebulk().string("a", "b", name="n").matches("ab").to_dict(first_value=True, enforce_list=True)
assert len(d.matches["n"]) == 2
''')

bug("c16-annotated", "C16",
    "a dataclass field typed Annotated[list[str], ...]",
    "annotations are kept, so that the field is not seen to be a list",
    [(M, "            hints = get_type_hints(model)\n            field_names: Iterable[str]", "            hints = get_type_hints(model, include_extras=True)\n            field_names: Iterable[str]")],
    '''
from dataclasses import dataclass
from typing import Annotated
from rebulk import Rebulk
@dataclass
class D:
    n: Annotated[list[str], "names"]
assert Rebulk().string("a", name="n").matches("aa").to(D).n == ["a", "a"]
''')

bug("c24-check-value-errors", "C24",
    "a conversion failing under the declared-key check",
    "a value that cannot be converted is not a mismatch, and its failure is hidden",
    [(M, "            value = match.value\n            if value is None or isinstance(value, key.value_type):\n", "            try:\n                value = match.value\n            except (ArithmeticError, LookupError, ValueError):\n                continue\n            if value is None or isinstance(value, key.value_type):\n")],
    '''
from rebulk import Rebulk, Key, debug
debug.CHECK_DECLARED_KEYS = True
b = Rebulk().declare_keys(Key("n", int)).string("a", name="n")
try: b.matches("a")
except ValueError: pass
else: raise SystemExit(1)
''')

bug("c21-nested-chain-names", "C21",
    "a key produced only inside a chain nested in a chain",
    "parts of nested chains are not looked at",
    [(RB, "            names |= _producible_names(part.pattern)\n", "            names |= _producible_names(part.pattern) if not isinstance(part.pattern, Chain) else {part.pattern.name}\n")],
    '''
from rebulk import Rebulk, Key
b = Rebulk().declare_keys(Key("n", str))
b.chain().string("a").chain().string("b", name="n").close()
assert b.check_keys() == []
''')

bug("c14-falsy-override", "C14",
    "an option named in overrides whose explicit value is falsy",
    "falsy explicit values are not kept by overrides",
    [(B, "            backup[override_key] = kwargs[override_key]\n", "            if kwargs[override_key]:\n                backup[override_key] = kwargs[override_key]\n")],
    '''
from rebulk import Rebulk
b = Rebulk().defaults(tags=["d"])
b.string("a", tags=[], overrides=["tags"])
assert b.matches("a")[0].tags == []
''')

bug("c12-exact-dict", "C12",
    "a functional pattern returning a dict of a derived class",
    "only plain dicts are options",
    [(P, "                if isinstance(args, dict):\n                    options", "                if type(args) is dict:\n                    options")],
    '''
from collections import OrderedDict
from rebulk import Rebulk
assert [m.span for m in Rebulk().functional(lambda s: OrderedDict(start=0, end=1)).matches("a")] == [(0, 1)]
''')

bug("c11-post-processor-empty", "C11",
    "a post_processor adding a match where the pattern finds none",
    "the post processor is not called when there is nothing to process",
    [(P, "        if self.post_processor:\n            processed", "        if self.post_processor and matches:\n            processed")],
    '''
from rebulk import Rebulk
from rebulk.match import Match
b = Rebulk().string("z", post_processor=lambda ms, p: [*ms, Match(0, 1, input_string="a", pattern=p)])
assert len(b.matches("a")) == 1
''')

bug("c13-hidden-forever", "C13",
    "hidden(False) after hidden()",
    "a part once hidden remains so",
    [(C, "        self._hidden = hidden\n        return self\n", "        self._hidden = self._hidden or hidden\n        return self\n")],
    '''
from rebulk import Rebulk
b = Rebulk().chain().string("a").hidden().hidden(False).string("b").close()
assert [m.span for m in b.matches("ab")] == [(0, 2)]
''')

bug("c13-plus-after-optional", "C13",
    "repeater('+') after repeater('?') on one part",
    "a minimum set by an earlier repeater is kept by '+'",
    [(C, "        if value == \"+\":\n            self.repeater_start = 1\n", "        if value == \"+\":\n            self.repeater_start = min(self.repeater_start, 1)\n")],
    '''
from rebulk import Rebulk
b = Rebulk().chain().string("a").string("b").repeater("?").repeater("+").close()
assert not b.matches("a")
''')

bug("c08-private-list", "C08",
    "two threads removing private matches at the same time",
    "the private matches found are kept on the rule, which threads share",
    [(PR, "        return [match for match in matches if match.private]\n", "        self._found = [match for match in matches if match.private]\n        return self._found\n")],
    '''
import sys, threading
from rebulk import Rebulk
from rebulk.processors import PrivateRemover
found = []
class Stop:
    pass
b = Rebulk().string("a", private=True).string("b", private=True)
bad = []
go = threading.Event(); entered = threading.Event()
def tracer(frame, event, arg):
    if frame.f_code is PrivateRemover.when.__code__:
        if event == "line" and threading.current_thread().name == "first" and getattr(frame.f_locals.get("self"), "_found", None) is not None and not entered.is_set():
            entered.set(); go.wait(5)
        return tracer
    return tracer if event == "call" and "rebulk" in frame.f_code.co_filename else None
def first():
    sys.settrace(tracer)
    bad.append([m.raw for m in b.matches("a a")])
def second():
    entered.wait(2)
    b.matches("b b b")
    go.set()
t1 = threading.Thread(target=first, name="first"); t2 = threading.Thread(target=second, name="second")
t1.start(); t2.start(); t1.join(); t2.join()
assert bad == [[]], bad
''')

bug("c07-context-identity", "C07",
    "a context modified by the caller between two calls",
    "the patterns found for a context are kept as long as the same object is given",
    [(RB, "            patterns = self.effective_patterns(context)\n            for pattern in patterns:\n",
      "            last = getattr(self, \"_last_patterns\", None)\n            if last is None or last[0] is not context or last[1] != len(self._patterns) or last[2] != len(self._rebulks):\n                last = self._last_patterns = (context, len(self._patterns), len(self._rebulks), self.effective_patterns(context))  # type: ignore[attr-defined]\n            for pattern in last[3]:\n")],
    '''
from rebulk import Rebulk
child = Rebulk(disabled=lambda context: context.get("off")).string("a")
b = Rebulk().rebulk(child)
c = {}
assert len(b.matches("a", c)) == 1
c["off"] = True
assert len(b.matches("a", c)) == 0
''')

bug("c18-context-identity", "C18",
    "a context modified by the caller between two calls",
    "the patterns found for a context are kept as long as the same object is given",
    [(RB, "            patterns = self.effective_patterns(context)\n            for pattern in patterns:\n",
      "            last = getattr(self, \"_last_patterns\", None)\n            if last is None or last[0] is not context:\n                last = self._last_patterns = (context, self.effective_patterns(context))  # type: ignore[attr-defined]\n            for pattern in last[1]:\n")],
    '''
from rebulk import Rebulk
child = Rebulk(disabled=lambda context: context.get("off")).string("a")
b = Rebulk().rebulk(child)
c = {}
assert len(b.matches("a", c)) == 1
c["off"] = True
assert len(b.matches("a", c)) == 0
''')

bug("c03-default-identity", "C03",
    "a conflict solver returning '__default__' as another string object",
    "the default answer is recognised by identity",
    [(PR, "                        if to_remove == DEFAULT:\n", "                        if to_remove is DEFAULT:\n")],
    '''
from rebulk import Rebulk
b = Rebulk().string("a", conflict_solver=lambda m, o: "".join(["__def", "ault__"])).string("ab")
assert [m.span for m in b.matches("ab")] == [(0, 2)]
''')

bug("c10-kwargs-flags", "C10",
    "flags given to a pattern which is given a (pattern, flags) tuple too",
    "a tuple has the flags of the pattern added",
    [(P, "                pattern = re.compile(*pattern)\n", "                pattern = re.compile(pattern[0], sum(pattern[1:]) | kwargs.get(\"flags\", 0))\n")],
    '''
import re
from rebulk import Rebulk
assert not Rebulk().regex(("a", re.DOTALL), flags=re.IGNORECASE).matches("A")
''')

bug("c06-tags-of-equals", "C06",
    "tags appended to two matches which are equal",
    "the tags are appended once for equal matches",
    [(R, "            for match in removed:\n                match.tags.extend(self.tags)\n", "            for match in dict.fromkeys(removed):\n                match.tags.extend(self.tags)\n")],
    '''
from rebulk.match import Match, Matches
from rebulk.rules import AppendTags
ms = Matches([Match(0, 1), Match(0, 1)])
AppendTags(["t"]).then(ms, list(ms), None)
assert [m.tags for m in ms] == [["t"], ["t"]]
''')

bug("c22-len-raw", "C22",
    "a match whose raw span is set apart from its span",
    "the length is that of the raw text",
    [(M, "    def __len__(self) -> int:\n        return self.end - self.start\n", "    def __len__(self) -> int:\n        return self.raw_end - self.raw_start\n")],
    '''
from rebulk.match import Match
m = Match(0, 3, input_string="abc")
m.raw_end = 2
assert len(m) == 3
''')

bug("c03-many-conflicts", "C03",
    "two matches in conflict with each other and with more than 16 shorter ones",
    "only the 16 shortest conflicting matches are looked at",
    [(PR, "                conflicting_matches.sort(key=len)\n", "                conflicting_matches.sort(key=len)\n                del conflicting_matches[16:]\n")],
    '''
from rebulk import Rebulk
b = Rebulk().functional(lambda s: [(0, 1)] * 17).functional(lambda s: [(0, 2), (0, 3)])
assert [m.span for m in b.matches("abc")] == [(0, 3)]
''')
