M, P, C, R, B, L, U, V, PR, I, T, RB, F, D, K, RE = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "debug", "key", "remodule"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c26-private-gone-early", "C26",
    "a private match and a rule whose priority is a little above POST_PROCESS",
    "private matches are removed at half of the POST_PROCESS priority, so late rules no longer see them",
    [(PR, "    priority = POST_PROCESS\n", "    priority = POST_PROCESS // 2\n")],
    """
from rebulk import POST_PROCESS, CustomRule, Rebulk
seen = []
class Look(CustomRule):
    priority = POST_PROCESS + 1
    def when(self, matches, context):
        seen.append(len(matches))
    def then(self, matches, when_response, context):
        pass
Rebulk().string("a", private=True).rules(Look).matches("a")
assert seen == [1], seen
""")

bug("c26-hidden-late", "C26",
    "a rule running after the private matches were removed that hides one",
    "what a rule hides at the very end is dropped although no stage removing private matches follows",
    [(RB, """        self._execute_rules(matches, context)

        return matches
""", """        self._execute_rules(matches, context)
        return self._public(matches)

    def _public(self, found: Matches) -> Matches:
        if any(type(rule).__name__ == "PrivateRemover" for rule in self._rules):
            for match in [match for match in found if match.private]:
                found.remove(match)
        return found
""")],
    """
from rebulk import POST_PROCESS, CustomRule, Rebulk
class Hide(CustomRule):
    priority = POST_PROCESS - 1
    def when(self, matches, context):
        return list(matches)
    def then(self, matches, when_response, context):
        for m in when_response:
            m.private = True
assert len(Rebulk().string("a").rules(Hide).matches("a")) == 1
""")

bug("c26-child-rules-first", "C26",
    "a child rebulk without default rules holding a rule of priority PRE_PROCESS",
    "rules of a child run before the default rules of the parent at the same priority",
    [(RB, """        rules = Rules()
        rules.extend(self._rules)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        return rules
""", """        rules = Rules()
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        own = [rule for rule in self._rules if rule not in rules]
        rules.extend(own)
        return rules
""")],
    """
from rebulk import PRE_PROCESS, CustomRule, Rebulk
seen = []
class Look(CustomRule):
    priority = PRE_PROCESS
    def when(self, matches, context):
        seen.append(len(matches))
    def then(self, matches, when_response, context):
        pass
child = Rebulk(default_rules=False).rules(Look)
Rebulk().string("abc").string("b").rebulk(child).matches("abc")
assert seen == [1], seen
""")

bug("c27-lazy-count", "C27",
    "the rebulk loggers enabled for the level of a pattern that has matches",
    "a log message takes one argument less than it needs",
    [(RB, """"Pattern has %s match(es). (%s)", len(pattern_matches), pattern)""", """"Pattern has %s match(es). (%s)", pattern)""")],
    """
import logging
from rebulk import Rebulk
failed = []
class Keep(logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except TypeError as exc:
            failed.append(exc)
logger = logging.getLogger("rebulk")
logger.addHandler(Keep())
logger.setLevel(1)
Rebulk().string("a").matches("a")
assert not failed, failed
""")

bug("c27-level-zero", "C27",
    "a pattern given the log level 0",
    "a log level of 0 counts as none",
    [(P, "        return self._log_level if self._log_level is not None else debug.LOG_LEVEL\n", "        return self._log_level or debug.LOG_LEVEL\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().string("a", log_level=0)
assert bulk.effective_patterns({})[0].log_level == 0
""")

bug("c27-repr-sorts", "C27",
    "the representation of a match with several tags",
    "making the representation of a match sorts its tags in place",
    [(M, """            tags = f"+tags={self.tags}"
""", """            self.tags.sort()
            tags = "+tags=" + str(self.tags)
""")],
    """
from rebulk.match import Match
m = Match(0, 1, tags=["b", "a"])
repr(m)
assert m.tags == ["b", "a"], m.tags
""")

bug("c27-script", "C27",
    "debugging a configuration written in a script, which belongs to no package",
    "code that belongs to no package counts as part of rebulk",
    [(D, """                if frame.f_globals["__package__"] != __package__:
""", """                if (frame.f_globals["__package__"] or __package__) != __package__:
""")],
    """
from rebulk import Rebulk, debug
debug.DEBUG = True
at = Rebulk().string("a").effective_patterns({})[0].defined_at
assert at.name == "__main__", at
""")

bug("c27-group-level", "C27",
    "two rules of one priority of which the first has a log level below the other's",
    "the level of the message about a group of rules is kept on its first rule",
    [(R, """                group_log_level: int | None = None
                for rule in sorted_group:
                    if group_log_level is None or group_log_level < rule.log_level:
                        group_log_level = rule.log_level
                log(cast("int", group_log_level), "%s""", """                leader = sorted_group[0]
                for rule in sorted_group:
                    if leader.log_level < rule.log_level:
                        leader.log_level = rule.log_level
                log(cast("int", leader.log_level), "%s""")],
    """
from rebulk import CustomRule
from rebulk.match import Matches
from rebulk.rules import Rules
class One(CustomRule):
    def when(self, matches, context):
        pass
    def then(self, matches, when_response, context):
        pass
class Two(One):
    pass
one = One(log_level=5)
Rules(one, Two(log_level=30)).execute_all_rules(Matches(), {})
assert one.log_level == 5, one.log_level
""")

bug("c27-debug-location-key", "C27",
    "debugging enabled when patterns are configured, and two rebulks configured by one line",
    "with debugging, child patterns defined at the same place are taken only once",
    [(U, """        seen = set(target)
        for elt in source:
            if elt not in seen:
                target.append(elt)
                seen.add(elt)
""", """        seen = {getattr(elt, "defined_at", None) or elt for elt in target}
        for elt in source:
            key = getattr(elt, "defined_at", None) or elt
            if key not in seen:
                target.append(elt)
                seen.add(key)
""")],
    """
from rebulk import Rebulk, debug
debug.DEBUG = True
def child(text):
    return Rebulk().string(text, name=text)
bulk = Rebulk().rebulk(child("a"), child("b"))
assert [m.name for m in bulk.matches("ab")] == ["a", "b"], bulk.matches("ab")
""")

bug("c05-module-custom-rules", "C05",
    "a module of rules with a class extending CustomRule directly",
    "a module only contributes the classes that extend Rule",
    [(R, """            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
""", """            return inspect.isclass(member) and member.__module__ == module.__name__ and issubclass(member, Rule)
""")],
    """
import types
from rebulk import CustomRule, Rebulk
log = []
module = types.ModuleType("made")
class Mine(CustomRule):
    __module__ = "made"
    def when(self, matches, context):
        log.append(1)
    def then(self, matches, when_response, context):
        pass
module.Mine = Mine
Rebulk().rules(module).matches("a")
assert log == [1], log
""")

bug("c05-module-imports", "C05",
    "a module of rules that imports a rule class of another module of the same package",
    "a module also contributes rule classes it imports from modules of its package",
    [(R, """            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
""", """            return (
                inspect.isclass(member)
                and issubclass(member, CustomRule)
                and not inspect.isabstract(member)
                and not member.__module__.startswith(__name__.rpartition(".")[0])
                or getattr(member, "__module__", None) == module.__name__
            )
""")],
    """
import types
from rebulk import CustomRule, Rebulk
log = []
module = types.ModuleType("made")
class Other(CustomRule):
    __module__ = "elsewhere"
    def when(self, matches, context):
        log.append(1)
    def then(self, matches, when_response, context):
        pass
module.Other = Other
Rebulk().rules(module).matches("a")
assert log == [], log
""")

bug("c08-signature-cache", "C08",
    "two threads calling a function of a pattern for the first time at once",
    "the names of the arguments a function takes are published before they are complete",
    [(L, """    names = argspec.args + argspec.kwonlyargs
    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in names}
    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
    return call_args, call_kwarg
""", """    key = (tuple(argspec.args), tuple(argspec.kwonlyargs))
    names = _names.get(key)
    if names is None:
        names = _names[key] = []
        names.extend(argspec.args)
        names.extend(argspec.kwonlyargs)
    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in names}
    call_args = args if argspec.varargs else args[: len(names) - len(argspec.kwonlyargs) - (1 if constructor else 0)]
    return call_args, call_kwarg


_names: dict[Any, list[str]] = {}
""")],
    """
import sys, threading
from rebulk import Rebulk
from rebulk import loose
def find(string, context):
    return (0, 1) if context is not None else None
bulk = Rebulk().functional(find)
# one thread stops right after the new entry was published, another one goes on
go, stopped = threading.Event(), threading.Event()
def tracer(frame, event, arg):
    if frame.f_code.co_name == "argspec_args":
        def local(frame, event, arg):
            names = frame.f_locals.get("names")
            if names == [] and not stopped.is_set():
                stopped.set()
                go.wait(20)
            return local
        return local
first = []
def work():
    sys.settrace(tracer)
    first.append(len(bulk.matches("a")))
t = threading.Thread(target=work)
t.start()
stopped.wait(2)
try:
    assert len(bulk.matches("a")) == 1
finally:
    go.set()
    t.join()
assert first == [1], first
""")

bug("c08-values-default", "C08",
    "a call during another one on the same pattern, with a string of another length",
    "the number of matches of a pattern is kept on the pattern",
    [(P, """        matches: list[Match] = []
        raw_matches: list[Match] = []

        for pattern in self.patterns:
            for match_index, match in enumerate(self._match(pattern, input_string, context)):
                raw_matches.append(match)
                matches.extend(self._process_matches(match, match_index))
""", """        matches: list[Match] = []
        raw_matches: list[Match] = []

        for pattern in self.patterns:
            self._match_index = 0
            for match in self._match(pattern, input_string, context):
                raw_matches.append(match)
                matches.extend(self._process_matches(match, self._match_index))
                self._match_index += 1
""")],
    """
import threading
from rebulk import Rebulk
inner = []
def again(match):
    if not inner:
        inner.append(None)
        t = threading.Thread(target=lambda: inner.append(bulk.matches("aaa")))
        t.start()
        t.join()
    return True
bulk = Rebulk().string("a", validator=again)
got = bulk.matches("aa")
assert [m.match_index for m in got] == [0, 1], [m.match_index for m in got]
""")

bug("c08-rules-buffer", "C08",
    "two calls at once, one of which disables a child rebulk by its context",
    "the rules of the children that are enabled are kept on the Rebulk during the call",
    [(RB, """        rules = Rules()
        rules.extend(self._rules)
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        return rules
""", """        rules = self.__dict__.setdefault("_effective", Rules())
        rules[:] = self._rules
        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk.effective_rules(context))
        return rules
""")],
    """
import sys
import threading
from rebulk import CustomRule, Rebulk
log, ran = [], []
class Late(CustomRule):
    def when(self, matches, context):
        log.append(context)
    def then(self, matches, when_response, context):
        pass
child = Rebulk(default_rules=False, disabled=lambda context: bool(context.get("off"))).rules(Late)
bulk = Rebulk(default_rules=False).rebulk(child)
def tracer(frame, event, arg):  # another thread makes a whole call right before the rules run
    if frame.f_code.co_name == "execute_all_rules" and not ran:
        ran.append(None)
        t = threading.Thread(target=lambda: bulk.matches("a", {"off": True}))
        t.start()
        t.join()
sys.settrace(tracer)
bulk.matches("a", {"on": 1})
sys.settrace(None)
assert log == [{"on": 1}], log
""")
