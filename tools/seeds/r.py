M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c20-flatten-mixed", "C20",
    "flattening, sorted, items that are strings",
    "a level is sorted by length first",
    [(T, "sorted(cast(\"Any\", d))", "sorted(cast(\"Any\", d), key=lambda item: (len(item), item) if isinstance(item, str) else item)")],
    '''
from rebulk.toposort import toposort_flatten
assert toposort_flatten({"bb": set(), "c": set(), "a": {"bb"}}) == ["bb", "c", "a"]
''')

bug("c23-parent-of-shared-child", "C23",
    "a pattern returning both parents and children, with several groups",
    "children are given the last parent",
    [(P, "                            parent=main_match,", "                            parent=main_match if not i % 3 or i < 3 else None,")],
    '''
from rebulk import Rebulk
m = Rebulk().regex("(a)(b)(c)(d)").matches("abcd")[0]
assert all(c.parent is m for c in m.children)
''')

bug("c27-defined-at-frames", "C27",
    "DEBUG on and patterns built from a namespace without a package",
    "the location is looked for until a frame with a package is found",
    [(D, "            except KeyError:  # pragma:no cover\n                # If package is missing, consider we are in. Workaround for python 3.3.\n                break", "            except KeyError:  # pragma:no cover\n                pass")],
    '''
from rebulk import debug
debug.DEBUG = True
ns = {"__name__": "m"}
exec(compile("from rebulk import Rebulk\\nr = Rebulk().string('a')\\np = r.effective_patterns()[0]", "made.py", "exec"), ns)
assert ns["p"].defined_at.filename == "made.py", ns["p"].defined_at
''')

bug("c27-repr-children", "C27",
    "the representation of a match whose initiator has an unhashable or odd value, with logging on",
    "the representation formats values with the % operator",
    [(M, "        return f\"<{self.value}:{self.span}{flags}{name}{tags}{initiator}{defined}>\"", "        return \"<%s:%s\" % self.value + f\":{self.span}\" if isinstance(self.value, tuple) and self.value else f\"<{self.value}:{self.span}{flags}{name}{tags}{initiator}{defined}>\"")],
    '''
from rebulk import Rebulk
m = Rebulk().string("a", formatter=lambda s: (s,)).matches("a")
repr(m[0])
''')

bug("c10-verbose-flag", "C10",
    "an expression given as a dict with flags, twice",
    "flags given in a dict are taken out of it",
    [(P, "                pattern = re.compile(**pattern)", "                pattern = re.compile(pattern.pop(\"pattern\"), **pattern)")],
    '''
import re
from rebulk import Rebulk
d = {"pattern": "a", "flags": re.I}
Rebulk().regex(d)
assert d == {"pattern": "a", "flags": re.I}
''')

bug("c08-match-index", "C08",
    "two threads in the same pattern",
    "the number of a match is counted on the pattern",
    [(P, "        self._process_match_index(match, match_index)\n", "        self._index = match_index\n        self._process_match_private(match, child)\n        self._process_match_index(match, self._index)\n")],
    '''
import threading
from rebulk import Rebulk
ready, go = threading.Event(), threading.Event()
''' + '''
from rebulk.pattern import Pattern
orig = Pattern._process_match_private
def hook(self, match, child=False):
    if threading.current_thread().name == "one" and match.start == 0:
        ready.set(); go.wait(5)
    return orig(self, match, child)
Pattern._process_match_private = hook
b = Rebulk().string("a")
out = []
t = threading.Thread(target=lambda: out.append([m.match_index for m in b.matches("aaa")]), name="one")
t.start(); ready.wait(5)
b.matches("aaa"); go.set(); t.join()
assert out == [[0, 1, 2]], out
''')

