"""C05: scheduling of rules - priority, dependency levels, registration order, enabling, conditions and consequences."""
from __future__ import annotations

import itertools
import types

from rebulk import CustomRule, Rebulk, Rule
from rebulk.match import Match, Matches
from rebulk.rules import Rules

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["rule classes are distinct except in the 'duplicates' family; at most 4 rules; every rule's condition and consequence terminate"]

NAMES = "ABCDZ"


def make_classes(log, priorities, enabled, responses, consequence_style="custom"):
    """One class per rule, logging what it sees and does."""
    classes = []

    def members(i):
        def is_enabled(self, context):
            e = enabled[i]
            if isinstance(e, int) and not isinstance(e, bool):  # once that rule has acted
                return any(entry[:2] == ("then", e) for entry in log)
            return e if isinstance(e, bool) else context.get(e)  # None or a number

        def when(self, matches, context):
            log.append(("when", i, tuple(m.name for m in matches)))
            return list(responses[i]) if isinstance(responses[i], list) else responses[i]

        def then(self, matches, when_response, context):
            if isinstance(when_response, list):  # consumed
                log.append(("then", i, list(when_response)))
                when_response.clear()
            else:
                log.append(("then", i, when_response))
            matches.append(Match(i, i + 1, name=NAMES[i], input_string="x" * 8))

        return {"priority": priorities[i], "enabled": is_enabled, "when": when, "then": then}

    for i in range(len(priorities)):
        classes.append(type(NAMES[i], (Rule if i % 2 else CustomRule,), members(i)))
    return classes


class Cycle(Exception):
    pass


def levels(items, deps):
    """Longest-path levels of the dependency relation restricted to items."""
    todo, done, out = list(items), set(), []
    while todo:
        level = [i for i in todo if all(d in done or d == i for d in deps[i] if d in items)]
        if not level:
            raise Cycle()
        out.append(level)
        done |= set(level)
        todo = [i for i in todo if i not in level]
    return out


def reference(order, priorities, deps, enabled, responses, context):
    """Expected log and executed rules."""
    log, executed, present = [], [], []
    for priority in sorted(set(priorities[i] for i in order), reverse=True):
        group = [i for i in order if priorities[i] == priority]
        for level in levels(group, deps):
            for i in level:
                e = enabled[i]
                if isinstance(e, int) and not isinstance(e, bool):
                    e = NAMES[e] in present
                if not (e if isinstance(e, bool) else bool((context or {}).get(e))):
                    continue
                log.append(("when", i, tuple(present)))
                if responses[i]:
                    log.append(("then", i, responses[i]))
                    present.append(NAMES[i])
                    executed.append((i, [] if isinstance(responses[i], list) else responses[i]))
    return log, executed


def attach(classes, deps, form, missing):
    absent = type("Absent", (CustomRule,), {"when": lambda s, m, c: 1, "then": lambda s, m, w, c: None})
    classes = classes + [absent]
    for i, targets in enumerate(deps):
        targets = [classes[d] for d in targets] + ([absent] if missing else [])
        if form == "instances":
            targets = [t() for t in targets]
        elif form == "mixed":
            targets = [t() if j % 2 else t for j, t in enumerate(targets)]
        if len(targets) == 1 and form != "iterables":
            classes[i].dependency = targets[0]
        elif targets or form == "iterables":
            classes[i].dependency = {"classes": tuple, "instances": list, "mixed": list, "iterables": frozenset}[form](targets)


def execute(ctx, order, priorities, deps, enabled, responses, context, form, missing, through):
    log = []
    classes = make_classes(log, priorities, enabled, responses)
    attach(classes, deps, form, missing)
    what = lambda: f"registered {[NAMES[i] for i in order]} priorities {priorities} dependencies {deps} ({form}, absent={missing}) enabled {enabled} responses {responses} context {context}"
    try:
        want, executed = reference(order, priorities, deps, enabled, responses, context)
    except Cycle:
        want = None
    instances = [classes[i]() if i % 2 else classes[i] for i in order]
    if through == "rebulk":
        bulk = Rebulk(default_rules=False)
        bulk.rules(*instances)
        call = lambda: bulk.matches("xxxxxxxx", context)
    else:
        rules = Rules(*instances[:1])
        rules.load(*instances[1:])
        call = lambda: rules.execute_all_rules(Matches(input_string="xxxxxxxx"), context)
    ctx.ran()
    if want is None:
        ctx.raises(ValueError, call, lambda: what() + ": cyclic")
        return
    ret = call()
    ctx.eq(log, want, what)
    if through != "rebulk":
        ctx.eq([(NAMES.index(type(r).__name__), w) for r, w in ret], executed, lambda: what() + ": executed rules")
    ctx.state((order, priorities, deps, enabled, want))


def subsets(items):
    return [c for k in range(len(items) + 1) for c in itertools.combinations(items, k)]


def graph_cases(tier):
    deep = tier == "thorough"
    for k in (1, 2, 3):
        for order in itertools.permutations(range(k)):
            for priorities in itertools.product((0, 1) if k == 3 and not deep else (-1, 0, 2), repeat=k):
                for deps in itertools.product(*[subsets([j for j in range(k) if j != i or k < 3]) for i in range(k)]):
                    for form in ("classes", "instances", "mixed", "iterables") if k < 3 or deep else ("classes", "instances", "iterables"):
                        for missing in (False, True):
                            yield order, priorities, deps, form, missing
    # far from one another, and from the stages of the default rules
    for order in itertools.permutations(range(2)):
        for priorities in itertools.product((-10**9, -6000, -5000, -2048, 2048, 4096, 5000, 6000, 10**9), repeat=2):
            for deps in (((), ()), ((1,), ()), ((), (0,))):
                yield order, priorities, deps, "classes", False
    orders = list(itertools.permutations(range(4))) if deep else [(0, 1, 2, 3), (3, 1, 2, 0)]
    for order in orders:
        for priorities in itertools.product((0, 1), repeat=4) if deep else ((0, 0, 0, 0), (0, 1, 0, 0)):
            for deps in itertools.product(*[subsets([j for j in range(4) if j != i]) for i in range(4)]):
                yield order, priorities, deps, "classes", False


def graph_run(ctx, case):
    order, priorities, deps, form, missing = case
    k = len(order)
    execute(ctx, order, priorities, deps, (True,) * k, (True,) * k, {}, form, missing, "rules")


STREAM = (i for i in "ab")  # handed over as it is, not consumed
RESPONSES = [None, [], 0, False, ["r"], "yes", 3, STREAM]


def behaviour_cases(tier):
    deep = tier == "thorough"
    for priorities in itertools.product((0, 1), repeat=2):
        for deps in (((), ()), ((1,), ()), ((), (0,))):
            for enabled in itertools.product((True, False, "flag", 0, 1), repeat=2):
                for responses in itertools.product(RESPONSES, repeat=2):
                    for context in (None, {"flag": True}):
                        for through in ("rules", "rebulk"):
                            if through == "rules" and context is None:
                                context = {}
                            for form in ("classes", "instances", "mixed", "iterables") if any(deps) else ("classes",):
                                yield (0, 1), priorities, deps, enabled, responses, context, through, form
    for order in itertools.permutations(range(3)):
        for priorities in ((0, 0, 0), (0, 1, 0), (1, 0, 0)) if not deep else itertools.product((0, 1), repeat=3):
            for deps in (((), (), ()), ((1,), (2,), ()), ((1, 2), (), ()), ((), (0,), (0,)), ((), (), (0, 1))):
                for enabled in itertools.product((True, False, "flag", 0, 1), repeat=3):
                    for responses in itertools.product((None, "yes", [1]), repeat=3):
                        yield order, priorities, deps, enabled, responses, {"flag": 1}, "rules", "instances" if sum(order[:2]) % 2 else "iterables"


def behaviour_run(ctx, case):
    order, priorities, deps, enabled, responses, context, through, form = case
    execute(ctx, order, priorities, deps, enabled, responses, context, form, False, through)


def duplicate_cases(tier):
    """Rules that are instances of one of two classes, with a priority of their own."""
    for k in (2, 3, 4):
        for kinds in itertools.product((0, 1), repeat=k):
            for priorities in itertools.product((0, 1, 2) if k < 4 else (0, 1), repeat=k):
                for depends in (False, True):
                    yield kinds, priorities, depends


def duplicate_run(ctx, case):
    kinds, priorities, depends = case
    log = []

    def when(self, matches, context):
        log.append(self.tag)
        return True

    members = {"when": when, "then": lambda self, m, w, c: None}
    one = type("One", (CustomRule,), dict(members))
    two = type("Two", (CustomRule,), dict(members))
    if depends:
        one.dependency = two
    rules = Rules()
    for tag, (kind, priority) in enumerate(zip(kinds, priorities)):
        rule = (one, two)[kind]()
        rule.priority, rule.tag = priority, tag
        rules.load(rule)
    call = lambda: rules.execute_all_rules(Matches(), {})
    ctx.ran()
    if len(set(zip(kinds, priorities))) < len(kinds):
        ctx.raises(ValueError, call, f"{case}: two rules of one class at the same priority")
        return
    ret = call()
    order = sorted(range(len(kinds)), key=lambda i: (-priorities[i], kinds[i] == 0 if depends else 0, i))
    ctx.eq(log, order, f"{case}: order")
    ctx.eq([r.tag for r, _ in ret], order, f"{case}: executed")
    ctx.state(case)


# -- what is registered: modules of rule classes, classes, instances, in any number of calls and through children ----
def make_module(name, log, members, imported=()):
    """A module defining one rule class per member, with other names imported."""
    module = types.ModuleType(name)
    module.CustomRule, module.Rule, module.text, module.number = CustomRule, Rule, "text", 3
    for other in imported:
        setattr(module, other.__name__, other)
    for member in members:
        setattr(module, member, make_logging(name + member, log, name, called=member))
    return module


def make_logging(name, log, module=__name__, priority=0, called=None):
    return type(called or name, (CustomRule,), {"__module__": module, "priority": priority, "when": lambda self, m, c: log.append(name) or True, "then": lambda self, m, w, c: None})


def registration_cases(tier):
    items = ["class", "late class", "instance", "module", "module importing", "empty module"]
    for k in range(5 if tier == "thorough" else 4):
        for chosen in itertools.product(items, repeat=k):
            for cut in range(k + 1) if k else (0,):
                for way in ("constructor", "rebulk", "child", "grouped child"):
                    yield chosen, cut, way


def registration_run(ctx, case):
    chosen, cut, way = case
    log, given, want = [], [], []
    foreign = make_logging("Foreign", log)
    for i, item in enumerate(chosen):
        if item == "class":
            given.append(make_logging(f"Class{i}", log, called="Class"))  # rules of different classes, whatever their names
            want.append((0, f"Class{i}"))
        elif item == "late class":
            given.append(make_logging(f"Late{i}", log, priority=-5))
            want.append((5, f"Late{i}"))
        elif item == "instance":
            given.append(make_logging(f"Instance{i}", log)())
            want.append((0, f"Instance{i}"))
        elif item == "empty module":
            given.append(make_module(f"made{i}", log, []))
        else:
            given.append(make_module(f"made{i}", log, ["A", "B"], [foreign] if item == "module importing" else ()))
            want += [(0, f"made{i}A"), (0, f"made{i}B")]
    want = [name for _, name in sorted(want, key=lambda w: w[0])]
    if way == "constructor":
        rules = Rules(*given[:cut])
        rules.load(*given[cut:])
        call = lambda: rules.execute_all_rules(Matches(), {})
    else:
        bulk = Rebulk(default_rules=False)
        if way == "rebulk":
            bulk.rules(*given[:cut]).rules(*given[cut:])
        elif way == "child":
            bulk.rebulk(Rebulk(default_rules=False).rules(*given[cut:])).rules(*given[:cut])
        else:
            bulk.rebulk(Rebulk(default_rules=False).rules(*given[:cut]), Rebulk(default_rules=False).rules(*given[cut:]))
        call = lambda: bulk.matches("xxx")
    for _ in range(2):
        del log[:]
        call()
        ctx.ran()
        ctx.eq(log, want, f"{case}: rules that ran")
    ctx.state((way, want))


def families():
    return [
        Family("graphs", graph_cases, graph_run, "every dependency graph x priorities x registration order of up to 3 rules (4: all graphs on one or all orders), dependencies given as class, instance, iterable, absent or elsewhere"),
        Family("behaviour", behaviour_cases, behaviour_run, "2-3 rules x enabled (constant / from context / once another rule has acted) x responses (truthy and falsy) x priorities x dependencies (in each form)"),
        Family("duplicates", duplicate_cases, duplicate_run, "every sequence of up to 4 instances of two classes with priorities of their own"),
        Family("registration", registration_cases, registration_run, "every sequence of up to 3 (thorough 4) of: class, class of lower priority, instance, module of two rule classes, module that also imports others, module without rules, given in one or two calls to Rules, a Rebulk or its children"),
        sizes("C05"),
    ]
