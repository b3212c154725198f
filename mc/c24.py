"""C24: faults and re-entry - every invocation of every user callback of several configurations raises, or calls matches() itself."""
from __future__ import annotations

import copy

from rebulk import CustomRule, Key, Rebulk, RemoveMatch, Rule
from rebulk import debug
from rebulk.match import Match

from . import cold
from .configs import CONTEXTS, MENU as SHARED_MENU, STRINGS as SHARED_STRINGS, fresh_outcomes, outcome_of, result_view
from .core import Family
from .sizes import sizes

ASSUMPTIONS = [
    "exceptions other than StopIteration (which Python itself turns into RuntimeError inside generators)",
    "a callback that re-enters leaves its own return value unchanged",
]


class Custom(Exception):
    pass


class Fatal(BaseException):
    pass


ERRORS = [ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError, Custom, RecursionError, KeyboardInterrupt, Fatal, RuntimeError, NotImplementedError]


# -- more configurations, with callbacks called in the middle of generators, predicates and processing -----
def generators(cb):
    item = cb("item", lambda i: (i, i + 1, {"name": "n", "tags": ["g"]}))

    def produce(string, context):
        for i, c in enumerate(string):
            if c != "-":
                yield item(i)

    class Some(Rule):
        priority = 1

        def when(self, matches, context):
            return list(matches.range(predicate=cb("predicate", lambda m: m.start == 1)))

        consequence = RemoveMatch

    class Walk(CustomRule):
        def when(self, matches, context):
            return [h for h in matches.holes(0, len(matches.input_string), predicate=cb("hole", lambda m: len(m) < 9))] or matches

        def then(self, matches, when_response, context):
            for m in list(when_response):
                cb("edit", lambda m: m in matches and matches.remove(m))(m)
                matches.append(Match(m.start, m.end, name="w", input_string=matches.input_string))

    tags = ["t"]
    bulk = Rebulk().functional(produce, tags=tags, validator=cb("validator", lambda m: m.start != 3))
    bulk.string("b", name="x", formatter=cb("formatter", lambda s: s + s), validator=cb("by value", lambda m: m.value == "bb"))
    bulk.rules(Some, Walk)
    return bulk, [tags]


def chains(cb):
    names = ["x"]
    bulk = Rebulk()
    chain = bulk.chain(name="n", tags=["t"], validator=cb("chain validator", lambda m: len(m) != 3), private_names=names)
    chain.regex("(?P<x>a)", validator=cb("part validator", lambda m: m.start < 4)).repeater("+")
    nested = chain.chain(name="y", pre_match_processor=cb("nested pre", lambda m: m))
    nested.string("b", formatter=cb("part formatter", lambda s: s.upper())).repeater("*")
    nested.functional(cb("part function", lambda s: (0, 1) if s[:1] == "c" else None)).repeater("?")
    bulk.chain(chain_breaker=cb("breaker", lambda ms: ms[-1].value == "c" if ms else False), children=True).regex("[bc]").repeater("+").close()
    bulk.string("c", disabled=cb("disabled", lambda context: bool(context.get("off"))), post_processor=cb("post", lambda ms, p: ms))
    return bulk, [names]


def conflicts(cb):
    """Several conflicts decided in turn, the later ones by a callback; which of them there are depends on the context."""
    bulk = Rebulk()
    bulk.functional(lambda s, context: [(0, 4, {"name": "n", "value": "long"})] if "off" not in context else None)
    bulk.functional(lambda s: [(0, 1, {"name": "x"}), (2, 3, {"name": "x"})])
    bulk.functional(lambda s: [(5, 9), (7, 12)], name="y", conflict_solver=cb("solver", lambda match, other: "__default__"))
    bulk.functional(lambda s, context: [(11, 13)] if context else [(10, 13)], name="z", conflict_solver=cb("other solver", lambda match, other: match))
    return bulk, []


def lookups(cb):
    """A rule making every lookup with a predicate, with and without an index."""
    queries = {
        "range": lambda ms, **kw: ms.range(0, 9, **kw), "named": lambda ms, **kw: ms.named("n", **kw), "tagged": lambda ms, **kw: ms.tagged("t", **kw), "starting": lambda ms, **kw: ms.starting(1, **kw),
        "ending": lambda ms, **kw: ms.ending(2, **kw), "at_index": lambda ms, **kw: ms.at_index(1, **kw), "at_match": lambda ms, **kw: ms.at_match(ms[0], **kw), "at_span": lambda ms, **kw: ms.at_span((0, 2), **kw),
        "previous": lambda ms, **kw: ms.previous(ms[-1], **kw), "next": lambda ms, **kw: ms.next(ms[0], **kw), "conflicting": lambda ms, **kw: ms.conflicting(ms[0], **kw), "holes": lambda ms, **kw: ms.holes(0, 9, **kw),
        "chain_before": lambda ms, **kw: ms.chain_before(2, "-", **kw), "chain_after": lambda ms, **kw: ms.chain_after(0, "-", **kw), "crop": lambda ms, **kw: ms[0].crop((1, 1), **kw), "split": lambda ms, **kw: ms[0].split("-", **kw),
    }

    class Look(CustomRule):
        def when(self, matches, context):
            for label, query in queries.items() if matches else ():
                for index in (None, 0) if "off" not in context else (-1,):
                    kwargs = {"predicate": cb(label, lambda m: m.start < 3)}
                    if index is not None:
                        kwargs["index"] = index
                    query(matches, **kwargs)

        def then(self, matches, when_response, context):
            pass

    return Rebulk().string("b", "bc", name="n", tags=["t"]).regex("a-?", name="n", tags=["t"]).rules(Look), []


class Checked(Rebulk):
    """With the declared-key check."""

    def matches(self, string, context=None):
        saved, debug.CHECK_DECLARED_KEYS = debug.CHECK_DECLARED_KEYS, True
        try:
            return super().matches(string, context)
        finally:
            debug.CHECK_DECLARED_KEYS = saved


def checked(cb):
    """Values are converted to be checked."""
    bulk = Checked().declare_keys(Key("x", int, formatter=cb("converter", len)), Key("n", str))
    bulk.regex("(?P<x>a)(?P<n>b)?", children=True).string("c", name="n", formatter=cb("formatter", lambda s: s * 2))
    bulk.rebulk(Rebulk().string("bc", key=Key("y", list, formatter=cb("child converter", list))).declare_keys(Key("y", list)))
    return bulk, []


MENU = {**SHARED_MENU, "checked": checked, "generators": generators, "chains": chains, "conflicts": conflicts, "lookups": lookups}
STRINGS = {**SHARED_STRINGS, "checked": ["abca", "bc", "", "c-ab"], "generators": ["abab", "-b", "", "bb"], "chains": ["aabcab", "abc", "", "bcb"], "conflicts": ["abcdefghijklmn", "abcdefgh", "", "zbcdefghijklmn"], "lookups": ["abca-b", "a-bbc", "", "-"]}


class Injector:
    """Counts the invocations of callbacks, and acts at one of them."""

    def __init__(self):
        self.reset()

    def reset(self, at=None, action=None, when="before", on=True):
        self.count, self.at, self.action, self.when, self.on = 0, at, action, when, on
        self.labels = []

    def __call__(self, label, fn):
        def wrapper(*args, **kwargs):
            if not self.on:
                return fn(*args, **kwargs)
            self.count += 1
            self.labels.append(label)
            hit = self.at == "all" or self.at == self.count
            if hit and self.when == "before":
                self.act()
            ret = fn(*args, **kwargs)
            if hit and self.when == "after":
                self.act()
            return ret

        import inspect

        # keep the signature rebulk looks at
        try:
            wrapper.__signature__ = inspect.signature(fn)
        except (TypeError, ValueError):
            pass
        return wrapper

    def act(self):
        self.on = False
        try:
            self.action()
        finally:
            self.on = True


def make(name):
    inj = Injector()
    inj.on = False
    cold.restore()
    bulk, owned = MENU[name](inj)
    return bulk, owned, inj


_fresh, _counts = {}, {}


def fresh(*key):
    return outcome_of(_fresh, *key)


def count(name, s, c):
    """Labels of the callback invocations of a call."""
    key = (name, s, c)
    if key not in _counts:
        bulk, _, inj = make(name)
        inj.reset()
        bulk.matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c]))
        _counts[key] = list(inj.labels)
    return _counts[key]


def faulty_call(ctx, name, bulk, inj, call, at, error, when):
    s, c = call
    exc = error("injected")

    def action():
        raise exc

    inj.reset(at, action, when)
    context = copy.deepcopy(CONTEXTS[c])
    caught = None
    try:
        bulk.matches(STRINGS[name][s], context)
    except BaseException as e:  # noqa: B902
        if type(e).__name__ == "_Hang":
            raise
        caught = e
    finally:
        inj.reset(on=False)
    what = lambda: f"{name}: matches{STRINGS[name][s], CONTEXTS[c]} with {error.__name__} raised {when} invocation {at} ({count(name, s, c)[at - 1]}) of its callbacks"
    ctx.ok(caught is exc, lambda: what() + f": the caller saw {caught!r}")
    ctx.eq(context, CONTEXTS[c], lambda: what() + ": the context")
    return what


def after_calls(ctx, name, bulk, owned, before, calls, what):
    for s, c in calls:
        got = bulk.matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c]))
        ctx.eq(result_view(got), fresh(name, s, c), lambda: what() + f", then matches{STRINGS[name][s], CONTEXTS[c]}")
    ctx.eq(owned, before, lambda: what() + ": objects given at configuration")


def all_calls(name):
    return [(s, c) for s in range(len(STRINGS[name])) for c in range(len(CONTEXTS))]


def snapshot(owned):
    return copy.deepcopy(owned)


def fault_run(ctx, case):
    name, warm, faults = case
    bulk, owned, inj = make(name)
    before = snapshot(owned)
    if warm:
        after_calls(ctx, name, bulk, owned, before, [warm], lambda: f"{name}")
    for call, at, error, when in faults:
        what = faulty_call(ctx, name, bulk, inj, call, at, ERRORS[error], when)
    # the same call first: what it left half done would show
    after_calls(ctx, name, bulk, owned, before, [faults[-1][0]] + all_calls(name), what)
    ctx.ran()
    ctx.state((name, faults[-1][0], faults[-1][1]))


def fault_cases(tier):
    deep = tier == "thorough"
    for name in MENU:
        for call in all_calls(name):
            n = len(count(name, *call))
            for at in range(1, n + 1):
                for error in range(len(ERRORS)):
                    yield name, None, ((call, at, error, "before"),)
                for error in (0, 9):
                    yield name, None, ((call, at, error, "after"),)
                yield name, (1, 0), ((call, at, 0, "before"),)
        # two faults in successive calls
        for one in all_calls(name) if deep else [(0, 0), (1, 1)]:
            for two in all_calls(name) if deep else [(0, 2), (1, 0)]:
                for i in range(1, len(count(name, *one)) + 1):
                    for j in range(1, len(count(name, *two)) + 1):
                        yield name, None, ((one, i, 0, "before"), (two, j, 1, "after"))


def reenter_run(ctx, case):
    """At one (or every) invocation, the callback calls matches() on the same Rebulk."""
    name, call, at, inner, depth = case
    bulk, owned, inj = make(name)
    before = snapshot(owned)
    s, c = call
    results = []

    def action():
        si, ci = inner
        if depth and not results:
            # one more level: the nested call re-enters too
            saved = (inj.count, inj.at, inj.action, inj.when)
            deeper = []
            inj.reset(depth, lambda: deeper.append(bulk.matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c]))))
            results.append(bulk.matches(STRINGS[name][si], copy.deepcopy(CONTEXTS[ci])))
            inj.count, inj.at, inj.action, inj.when = saved
            inj.on = False
            for d in deeper:
                ctx.eq(result_view(d), fresh(name, s, c), lambda: what() + ": innermost call")
        else:
            results.append(bulk.matches(STRINGS[name][si], copy.deepcopy(CONTEXTS[ci])))

    what = lambda: f"{name}: matches{STRINGS[name][s], CONTEXTS[c]} whose callback invocation {at} calls matches{STRINGS[name][inner[0]], CONTEXTS[inner[1]]}"
    inj.reset(at, action)
    got = bulk.matches(STRINGS[name][s], copy.deepcopy(CONTEXTS[c]))
    inj.reset(on=False)
    ctx.ran()
    ctx.ok(results, lambda: what() + ": was reached")
    ctx.eq(result_view(got), fresh(name, s, c), lambda: what() + ": outer call")
    for r in results:
        ctx.eq(result_view(r), fresh(name, *inner), lambda: what() + ": inner call")
    after_calls(ctx, name, bulk, owned, before, [call, inner], what)
    ctx.state((name, call, at, inner))


def reenter_cases(tier):
    for name in MENU:
        for call in all_calls(name):
            n = len(count(name, *call))
            for inner in all_calls(name):
                for at in range(1, n + 1):
                    yield name, call, at, inner, 0
                if n:
                    yield name, call, "all", inner, 0
        for call in all_calls(name) if tier == "thorough" else [(0, 0), (3, 1)]:
            for inner in [(1, 0), (0, 2)]:
                for at in range(1, len(count(name, *call)) + 1):
                    for depth in range(1, len(count(name, *inner)) + 1):
                        yield name, call, at, inner, depth


def families():
    if not _fresh:
        _fresh.update(fresh_outcomes(MENU, STRINGS))
    return [
        Family("faults", fault_cases, fault_run, "14 configurations x 4 strings x 3 contexts: every invocation of every callback raises (12 exception types; at entry and after its work), also two faults in successive calls; then every call is made again"),
        Family("reentry", reenter_cases, reenter_run, "every invocation of every callback calls matches() on the same Rebulk with each string and context; also at every invocation at once, and two levels deep"),
        sizes("C24"),
    ]
