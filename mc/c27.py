"""C27: debugging aids - every configuration, string and context with debug locations and logging in every combination of modes."""
from __future__ import annotations

import copy
import inspect
import itertools
import logging

from rebulk import CustomRule, Rebulk, RemoveMatch, Rule, debug
from rebulk.match import Match, Matches

from .configs import CONTEXTS, MENU, STRINGS, fresh_outcomes, outcome_of, plain, result_view
from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["user callbacks have no side effect (representations may call formatters again); the text of messages and representations is not judged, only that making them succeeds and changes nothing"]

LEVELS = [None, 1, logging.DEBUG, logging.WARNING]


class Recorder(logging.Handler):
    """Formats every record; remembers those that cannot be."""

    def __init__(self):
        super().__init__(level=0)
        self.records, self.levels, self.failed = 0, set(), []

    def emit(self, record):
        self.records += 1
        self.levels.add(record.levelno)
        try:
            record.getMessage()
        except Exception as exc:  # what logging itself would print on stderr
            self.failed.append(f"{record.msg!r}: {type(exc).__name__}: {exc}")


class Mode:
    """Debug flag, logging level and default log level for a while."""

    def __init__(self, flag, level, default=logging.DEBUG):
        self.flag, self.level, self.default, self.recorder = flag, level, default, Recorder()

    def __enter__(self):
        self.saved = debug.DEBUG, debug.LOG_LEVEL, logging.root.manager.disable
        debug.DEBUG, debug.LOG_LEVEL = self.flag, self.default
        logger = logging.getLogger("rebulk")
        self.old = logger.level, logger.propagate
        if self.level is not None:
            logging.disable(logging.NOTSET)
            logger.setLevel(self.level)
            logger.propagate = False
            logger.addHandler(self.recorder)
        return self.recorder

    def __exit__(self, *exc):
        logger = logging.getLogger("rebulk")
        logger.removeHandler(self.recorder)
        logger.setLevel(self.old[0])
        logger.propagate = self.old[1]
        debug.DEBUG, debug.LOG_LEVEL = self.saved[:2]
        logging.disable(self.saved[2])


_fresh = {}


def represent(bulk, got):
    """Representations of everything there is."""
    for m in list(got) + list(got.markers):
        todo = [m]
        while todo:
            x = todo.pop()
            repr(x), str(x), f"{x}"
            todo += list(x.children)
    repr(got), repr(got.markers), str(got)
    for p in bulk.effective_patterns({}):
        repr(p), str(p)
        for part in getattr(p, "parts", ()):
            repr(part)
    for r in bulk.effective_rules({}):
        repr(r), str(r)


def run(ctx, case):
    name, s, c, at_build, at_call, level = case
    what = lambda: f"{name}: matches{STRINGS[name][s], CONTEXTS[c]}, debug at configuration {at_build}, at the call {at_call}, logging level {level}"
    with Mode(at_build, level):
        bulk, owned = MENU[name](plain)
    before = copy.deepcopy(owned)
    context = copy.deepcopy(CONTEXTS[c])
    for _ in range(2):
        with Mode(at_call, level) as recorder:
            got = bulk.matches(STRINGS[name][s], context)
            represent(bulk, got)
        ctx.ran()
        ctx.eq(recorder.failed, [], lambda: what() + ": log messages")
        if level == 1:
            ctx.ok(recorder.records or not STRINGS[name][s], lambda: what() + ": nothing was logged")
        want = outcome_of(_fresh, name, s, c)
        if context is None or context == CONTEXTS[c]:
            ctx.eq(result_view(got), want, what)
        context = copy.deepcopy(CONTEXTS[c])
    ctx.eq(owned, before, lambda: what() + ": objects given at configuration")
    # where things were defined, outside the package
    lines, start = inspect.getsourcelines(MENU[name])
    for p in bulk.effective_patterns({}):
        at = p.defined_at
        if not at_build:
            ctx.eq(at, None, lambda: what() + ": location without debug")
        else:
            ctx.ok(at.filename == inspect.getsourcefile(MENU[name]) and start <= at.lineno < start + len(lines), lambda: what() + f": pattern located at {at!r}")
    for m in got:
        if m.pattern is not None:
            ctx.ok(m.defined_at == m.pattern.defined_at, lambda: what() + ": a match is located where its pattern is")
    ctx.state((case, [m.span for m in got]))


def cases(tier):
    for name in MENU:
        for s in range(len(STRINGS[name])):
            for c in range(len(CONTEXTS)):
                for at_build, at_call in itertools.product((False, True), repeat=2):
                    for level in LEVELS:
                        yield name, s, c, at_build, at_call, level


# -- log levels given to patterns, rules and defaults -------------------------------------------------
GIVEN = [None, 0, 5, logging.DEBUG, logging.ERROR]


class First(Rule):
    name = "first %d of {all}"
    consequence = RemoveMatch

    def when(self, matches, context):
        return matches.named("x")


class Levelled(CustomRule):
    name = "100%s\n%(levelled)s %"
    log_level = 7

    def when(self, matches, context):
        return matches.named("n")

    def then(self, matches, when_response, context):
        for m in list(when_response):
            matches.append(Match(m.start, m.end, name="added", input_string=matches.input_string))


def level_run(ctx, case):
    pattern_level, rule_level, other_level, default_level, level, flag = case
    what = lambda: f"log levels: pattern {pattern_level}, rules {rule_level} and {other_level}, default {default_level}; logging at {level}, debug {flag}"
    options = {} if pattern_level is None else {"log_level": pattern_level}
    with Mode(flag, level, default_level) as recorder:
        bulk = Rebulk().string("a", name="n", **options).regex("(?P<x>b)", children=True, **options).functional(lambda s: (2, 3), name="z", disabled=True, **options)
        bulk.chain(name="c", **options).string("c").repeater("+").close()
        bulk.string("c", marker=True, **options)
        bulk.rules(First(rule_level) if rule_level is not None else First, Levelled(log_level=other_level) if other_level is not None else Levelled())
        bulk.rebulk(*[Rebulk().string(t, name="t" + t) for t in "ab"])  # several of one line
        bulk.string("%d", name="%s", value="%(v)s", tags=["%d", "{}"], **options)
        got = bulk.matches("abcc%d\n", {"%s": "%d"})
        represent(bulk, got)
        ctx.ran()
        ctx.eq(recorder.failed, [], what)
        ctx.ok(recorder.levels <= {default_level, pattern_level, rule_level, 7, other_level}, lambda: what() + f": messages at {recorder.levels}")
        for r in bulk.effective_rules({}):
            if isinstance(r, Levelled):
                ctx.eq(r.log_level, 7 if other_level is None else other_level, what)
            elif isinstance(r, First) and rule_level is not None:
                ctx.eq(r.log_level, rule_level, what)
    rows = [(m.span, m.name) for m in got], [(m.span, m.name) for m in got.markers]
    ctx.eq(rows, ([((0, 1), "n"), ((2, 4), "c"), ((4, 6), "%s"), ((0, 1), "ta"), ((1, 2), "tb"), ((0, 1), "added")], [((2, 3), None), ((3, 4), None)]), what)
    for p in bulk.effective_patterns({}):
        if pattern_level is not None and p.name not in ("ta", "tb"):
            ctx.eq(p.log_level, pattern_level, what)
    ctx.state(case)


def level_cases(tier):
    for pattern_level in GIVEN:
        for rule_level in GIVEN:
            for other_level in GIVEN:
                for default_level in (logging.DEBUG, 0, logging.ERROR):
                    for level in LEVELS:
                        for flag in (False, True):
                            yield pattern_level, rule_level, other_level, default_level, level, flag


# -- representations of matches made by hand ------------------------------------------------------
def repr_run(ctx, case):
    start, end, name, value, text, private, tags, with_parent, fmt, flag = case
    with Mode(flag, None):
        parent = Match(0, 3, name="p", input_string=text) if with_parent else None
        m = Match(start, end, name=name, value=value, private=private, tags=tags, parent=parent, input_string=text, formatter=fmt and (lambda s: fmt), marker=bool(tags))
        if parent:
            parent.children.append(m)
        c = Matches(input_string=text)
        (c.markers if m.marker else c).append(m)
        before = (m.span, m.name, m.value, list(m.tags), m.private, m.parent is parent, m.marker)
        for x in (m, parent, c, c.markers):
            ctx.ok(isinstance(repr(x), str) and isinstance(str(x), str), f"{case}")
        ctx.ran()
    ctx.eq((m.span, m.name, m.value, list(m.tags), m.private, m.parent is parent, m.marker), before, f"{case}: after making representations")
    ctx.eq(m.defined_at is not None, flag, f"{case}: location")
    if flag:
        ctx.eq((m.defined_at.filename, m.defined_at.name), (__file__, __name__), f"{case}: location")
    ctx.state(case)


def repr_cases(tier):
    for start, end in ((0, 1), (1, 3), (0, 3)):
        for name in (None, "n", ""):
            for value in (None, "v", 0, ("t",), {"a": 1}):
                for text in ("abc", "%s%d", "{x}\n"):
                    for private in (False, True):
                        for tags in (None, ["t", "%s"]):
                            for with_parent in (False, True):
                                for fmt in (None, ("made",), "%s"):
                                    for flag in (False, True):
                                        yield start, end, name, value, text, private, tags, with_parent, fmt, flag


# -- where things are defined: code of any package, at any depth of user calls -----------------------
SOURCE = """


def configure(what, extra):
    if what == "string":
        return Rebulk().string("a", **extra)
    if what == "regex":
        return (Rebulk()
                .regex("(?P<g>a)", children=True, **extra))
    if what == "functional":
        return Rebulk().functional(lambda s: (0, 1), **extra)
    if what == "chain":
        return Rebulk().chain(**extra).string("a").close()
    if what == "rule":
        return Rebulk().string("a").rules(Mine())
    return through(what, extra)


def through(what, extra):
    return configure(what.replace("nested ", "", 1), extra)
"""
LINES = {"string": (6, 6), "regex": (8, 9), "functional": (11, 11), "chain": (13, 13), "rule": (15, 15)}


class Mine(CustomRule):
    def when(self, matches, context):
        pass

    def then(self, matches, when_response, context):
        pass


def location_cases(tier):
    for package in ("mine", "rebulk_plugin", "my.rebulk", "rebulkette.test", "x.rebulk.y", "", None, "absent"):
        for what in LINES:
            for depth in range(3):
                for extra in ({}, {"name": "n"}, {"private": True}):
                    yield package, what, depth, extra


def location_run(ctx, case):
    package, what, depth, extra = case
    space = {"__name__": "some.module", "__package__": package, "Rebulk": Rebulk, "Mine": Mine}
    if package == "absent":
        del space["__package__"]
    exec(compile(SOURCE, "/some/where.py", "exec"), space)
    with Mode(True, None):
        bulk = space["configure"]("nested " * depth + what, dict(extra))
    things = [r for r in bulk.effective_rules({}) if isinstance(r, Mine)] if what == "rule" else list(bulk.effective_patterns({}))
    got = list(bulk.matches("a", {})) if what != "rule" else []
    ctx.ran()
    for x in things + got:
        at = x.defined_at
        ctx.ok(at is not None, f"{case}: {x!r} has no location")
        ctx.eq((at.filename, at.name, LINES[what][0] <= at.lineno <= LINES[what][1]), ("/some/where.py", "some.module", True), lambda: f"{case}: {x!r} located at {tuple(at)}")
    ctx.state((package, what, depth, len(things), len(got)))


def families():
    if not _fresh:
        _fresh.update(fresh_outcomes())
    return [
        Family("configurations", cases, run, "9 configurations x 4 strings x 3 contexts x debug flag at configuration and at the call x 4 logging levels (every message formatted, every object represented)"),
        Family("log_levels", level_cases, level_run, "log levels given to patterns, rule instances and classes, and by default, x logging levels x debug flag"),
        Family("locations", location_cases, location_run, "patterns, chains and rules defined by code of 8 packages (like named ones, none) at 3 depths of calls"),
        Family("representations", repr_cases, repr_run, "matches made by hand: spans x names x values x texts x flags x tags x parents x formatters"),
        sizes("C27"),
    ]
