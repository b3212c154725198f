"""C18: child rebulks and disabling - trees with every assignment of disabled flags, compared with one flat Rebulk and with what is enabled by hand."""
from __future__ import annotations

import itertools

from rebulk import Key, Rebulk
from rebulk.rules import AppendMatch, CustomRule, RemoveMatch, RenameMatch, Rule

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["at most 3 rebulks in a tree (uniform chains of them: up to 129), none its own descendant; disabled functions depend on their context only"]

TEXT = "abcabd"
CONTEXTS = [None, {}, {"x": 1}, {"x": 0, "y": 2}]


class Switch:
    """A callable which is falsy itself."""

    def __call__(self, context):
        return [context] if "y" in context else ""

    def __len__(self):
        return 0


# flag label -> (what is passed as disabled, what it means for a context)
FLAGS = {
    "no": (False, lambda c: False),
    "yes": (True, lambda c: True),
    "fn_no": (lambda context: False, lambda c: False),
    "fn_yes": (lambda context: True, lambda c: True),
    "if_x": (lambda context: context.get("x"), lambda c: bool(c.get("x"))),
    "unless_y": (lambda context: "y" not in context, lambda c: "y" not in c),
}
MORE = {"one": (1, lambda c: True), "text": ("no", lambda c: True), "zero": (0, lambda c: False), "none": (None, lambda c: False), "object": (Switch(), lambda c: "y" in c)}
USUAL = list(FLAGS)
FLAGS.update(MORE)


class Log:
    def __init__(self):
        self.rules, self.contexts = [], []


def make_rules(log):
    def mark(self, matches, context):
        log.rules.append(self.label)
        log.contexts.append(context)

    class High(Rule):
        priority = 50
        consequence = RenameMatch("high")

        def when(self, matches, context):
            mark(self, matches, context)
            return matches.named("a")

    class Low(Rule):
        priority = -50
        consequence = AppendMatch

        def when(self, matches, context):
            mark(self, matches, context)
            return matches.holes(0, 6)

    class Same(Rule):
        consequence = RemoveMatch

        def when(self, matches, context):
            mark(self, matches, context)
            return matches.starting(3)

    class OnlyX(CustomRule):
        def enabled(self, context):
            return bool(context and context.get("x"))

        def when(self, matches, context):
            mark(self, matches, context)
            return True

        def then(self, matches, when_response, context):
            matches.reverse()

    made = {"High": High, "Low": Low, "Same": Same, "OnlyX": OnlyX}
    for label, rule in made.items():  # a class is not its name
        rule.label, rule.__name__, rule.__qualname__ = label, "R", "R"
    return made


ENABLED = {"High": lambda c: True, "Low": lambda c: True, "Same": lambda c: True, "OnlyX": lambda c: bool(c.get("x"))}
PRIORITY = {"High": 50, "Low": -50, "Same": 0, "OnlyX": 0}

PATTERNS = {
    "a": lambda b, **kw: b.string("a", name="a", **kw),
    "ab": lambda b, **kw: b.string("ab", name="ab", **kw),
    "g": lambda b, **kw: b.regex("(?P<k>b)(c)?", children=True, **kw),
    "f": lambda b, **kw: b.functional(lambda s: (4, 6), name="f", private=True, **kw),
    "m": lambda b, **kw: b.string("d", marker=True, name="m", **kw),
    "c": lambda b, **kw: b.chain(name="c", **kw).string("b").string("c").repeater("?").close(),
}
KEYS = {"k": Key("k", str), "k2": Key("k", int, formatter=len), "z": Key("z", str)}


def brief(m):
    return m.span, m.name, bool(m.private), bool(m.marker), list(m.tags), m.value, m.initiator.span, [brief(c) for c in m.children]


def view(got):
    return [brief(m) for m in got], [brief(m) for m in got.markers]


def fill(bulk, node, rules, skip=(), context=None):
    patterns, names, keys = node
    for k in keys:
        bulk.declare_keys(KEYS[k])
    for label, flag in patterns:
        if context is None:
            PATTERNS[label](bulk, **({} if flag == "no" and len(label) == 1 else {"disabled": FLAGS[flag][0]}))
        elif not FLAGS[flag][1](context):
            PATTERNS[label](bulk)
    bulk.rules(*[rules[n] for n in names if n not in skip])


SHAPES = {"flat": {0: (1, 2)}, "line": {0: (1,), 1: (2,)}, "twice": {0: (1, 2), 1: (2,)}, "late": {0: (1, 2), 2: (1,)}}


def reached(shape, top, enabled):
    """The enabled rebulks under top in registration order, each once."""
    if not enabled[top]:
        return []
    found = [top]
    for child in shape.get(top, ()):
        found += [i for i in reached(shape, child, enabled) if i not in found]
    return found


def run(ctx, case):
    """nodes: ((patterns, rules, keys), disabled flag) for parent, children and children of children."""
    nodes, default_rules, shape = case
    shape = {top: [i for i in below if i < len(nodes)] for top, below in SHAPES[shape].items()}
    log = Log()
    rules = make_rules(log)
    bulks = []
    for i, (node, flag) in enumerate(nodes):
        bulk = Rebulk(disabled=FLAGS[flag][0], default_rules=default_rules[i])
        fill(bulk, node, rules)
        bulks.append(bulk)
    for top, below in shape.items():
        bulks[top].rebulk(*[bulks[i] for i in below])
    own = {}
    for given in CONTEXTS:
        context = {} if given is None else own  # the caller uses one dict, and modifies it
        context.clear()
        context.update(given or {})
        log.rules.clear(), log.contexts.clear()
        got = bulks[0].matches(TEXT, None if given is None else context)
        ctx.ran()
        what = lambda: f"{nodes} default rules {default_rules}, children {shape}, context {given}"
        on = [not FLAGS[flag][1](context) for _, flag in nodes]
        order = reached(shape, 0, on)
        ran, contexts = list(log.rules), list(log.contexts)
        # by hand: which rules run, in which order
        names = []
        for i in order:
            names += [n for n in nodes[i][0][1] if n not in names]
        want_rules = sorted([n for n in names if ENABLED[n](context)], key=lambda n: -PRIORITY[n])
        ctx.eq(ran, want_rules, lambda: what() + ": rules run")
        ctx.ok(all(c == context for c in contexts), lambda: what() + f": contexts {contexts}")
        keys = {}
        for i in order:
            for k in (KEYS[k] for k in nodes[i][0][2]):
                keys.setdefault(k.name, k)
        ctx.eq(dict(got.declared_keys), keys, lambda: what() + ": declared keys")
        if not order:
            ctx.eq((list(got), list(got.markers), ran), ([], [], []), lambda: what() + ": disabled")
        elif not any(node[2] for node, _ in nodes):
            ctx.eq(view(got), view(flattened(nodes, default_rules, order, rules, context).matches(TEXT, dict(context))), what)
        ctx.state((case, context != {}, [m.span for m in got]))
    # a child on its own is what it was
    on = [not FLAGS[flag][1]({"x": 1}) for _, flag in nodes]
    for i in range(1, len(nodes)):
        order = reached(shape, i, on)
        if not any(nodes[j][0][2] for j in order):
            alone = flattened(nodes, default_rules, order, rules, {"x": 1}) if order else Rebulk()
            ctx.eq(view(bulks[i].matches(TEXT, {"x": 1})), view(alone.matches(TEXT, {"x": 1})), lambda: f"{nodes}: child alone")


def flattened(nodes, default_rules, order, rules, context):
    """One flat Rebulk with what is enabled."""
    flat = Rebulk(default_rules=any(default_rules[i] for i in order))
    seen = []
    for i in order:
        patterns, names, _ = nodes[i][0]
        fill(flat, (patterns, (), ()), rules, context=context)
        flat.rules(*[rules[n] for n in names if n not in seen])
        seen += names
    return flat


def node(patterns=(), rules=(), keys=()):
    return tuple((p, "no") if isinstance(p, str) else p for p in patterns), tuple(rules), tuple(keys)


def cases(tier):
    for nodes, defaults in trees(tier):
        for shape in SHAPES:
            if shape == "flat" or len(nodes) > 2:
                yield nodes, defaults, shape


def trees(tier):
    deep = tier == "thorough"
    flags = USUAL
    # flags of a parent and two children
    shapes = [
        (node(["a"], ["High"]), node(["ab", "m"], ["Low"]), node(["g", "f"], ["OnlyX"])),
        (node(["c"], ["Same", "OnlyX"]), node(["a", "g"], ["Same"]), node(["ab"], ["High", "Same"])),
        (node([], []), node(["a", "ab"], ["High"]), node(["c", "m"], ["High", "Low"])),
    ]
    for shape in shapes:
        for combo in itertools.product(flags, repeat=3):
            for defaults in ((True, True, True), (False, False, False), (False, True, False), (True, False, True)):
                yield tuple(zip(shape, combo)), defaults
    for shape in shapes:
        for i in range(3):
            for more in MORE:
                for combo in itertools.product((*MORE, "no", "if_x") if i == 1 else ("no", "if_x"), repeat=2):
                    yield tuple(zip(shape, (*combo[:i], more, *combo[i:]))), (True, False, False)
    for combo in itertools.product((*MORE, "no", "if_x"), repeat=3):
        yield ((node(list(zip(("a", "g", "c"), combo))), "no"),), (True,)
    # flags of patterns
    for combo in itertools.product(flags, repeat=3):
        for labels in (("a", "ab", "g"), ("c", "f", "m"), ("g", "c", "a"), ("ab", "m", "f")):
            ps = list(zip(labels, combo))
            yield ((node(ps[:1]), "no"), (node(ps[1:]), "no")), (True, True)
            yield ((node(ps), "no"),), (True,)
            yield ((node(ps[:2]), "no"), (node(ps[2:]), "if_x")), (False, True)
    # contents: every pattern subset split between parent and child
    labels = list(PATTERNS)
    for split in itertools.product((0, 1, 2, None) if deep else (0, 1, None), repeat=len(labels)):
        parts = [[l for l, s in zip(labels, split) if s == i] for i in range(3)]
        for flag in ("no", "if_x"):
            yield tuple((node(p), f) for p, f in zip(parts, ("no", flag, "no"))), (True, True, True)
    # rules: every distribution
    names = list(ENABLED)
    for a, b, c in itertools.product([r for k in range(3) for r in itertools.permutations(names, k)], repeat=3) if deep else itertools.product([r for k in range(3) for r in itertools.combinations(names, k)], repeat=3):
        yield ((node(["a", "g"], a), "no"), (node(["ab"], b), "no"), (node(["m"], c), "if_x")), (True, False, True)
    # keys
    for a, b, c in itertools.product([(), ("k",), ("k2",), ("z", "k"), ("k", "k2")], repeat=3):
        if any(len(x) == 2 and x[0] == "k" for x in (a, b, c)):
            continue
        for flag in ("no", "yes", "if_x"):
            yield ((node(["g"], (), a), "no"), (node(["g"], (), b), flag), (node(["a"], (), c), "no")), (True, True, True)
            yield ((node(["g"], (), a), flag), (node(["g"], (), b), "no")), (True, True)


# -- histories: building after composing, defaults, contexts passed on ------------------------------
def history_run(ctx, case):
    order, flag = case
    seen = []

    def disabled(context):
        seen.append(context)
        return FLAGS[flag][1](context)

    parent, child, grandchild = Rebulk(default_rules=False), Rebulk(disabled=disabled, default_rules=False), Rebulk(default_rules=False)
    bulks = {"parent": parent, "child": child, "grandchild": grandchild}
    model = {who: [] for who in bulks}
    defaults = {who: {} for who in bulks}
    composed = below = False
    for op in order:
        who, what = op
        bulk = bulks[who]
        if what == "defaults":
            bulk.defaults(name=who)
            defaults[who] = {"name": who}
        elif op == ("child", "rebulk"):
            child.rebulk(grandchild)
            below = True
        elif what == "rebulk":
            parent.rebulk(child)
            composed = True
        else:
            bulk.string(what)
            model[who].append((what, defaults[who].get("name")))
        for given in ({}, {"x": 1}, {"y": 1}):
            del seen[:]
            got = parent.matches(TEXT, given)
            ctx.ran()
            patterns = model["parent"] + (model["child"] + (model["grandchild"] if below else []) if composed and not FLAGS[flag][1](given) else [])
            want = [((i, i + 1), n) for p, n in patterns for i in range(6) if TEXT[i] == p]
            ctx.eq([(m.span, m.name) for m in got], want, lambda: f"{order} child disabled {flag} context {given}")
            ctx.ok(all(c is given for c in seen) and (seen or not composed), lambda: f"{order}: context given to the disabled function: {seen}")
            ctx.eq(given, {} if given == {} else {"x": 1} if "x" in given else {"y": 1}, "the context")
    ctx.state((order, flag))


def history_cases(tier):
    ops = [("parent", "a"), ("child", "b"), ("parent", "defaults"), ("child", "defaults"), ("parent", "rebulk"), ("child", "c"), ("child", "rebulk"), ("grandchild", "d")]
    for k in range(1, 6 if tier == "thorough" else 5):
        for order in itertools.product(ops, repeat=k):
            if order.count(("parent", "rebulk")) <= 1 and order.count(("child", "rebulk")) <= 1:
                for flag in ("no", "yes", "if_x", "unless_y"):
                    yield order, flag


def families():
    return [
        Family("trees", cases, run, "up to 3 rebulks, below one another in every way: every assignment of 6 disabled flags to rebulks and to patterns (and of 5 more: truthy, falsy, callable objects), distributions of 6 patterns, 4 rules, declared keys, default rules; 4 contexts each"),
        Family("histories", history_cases, history_run, "every sequence of up to 4 (thorough 5) building steps on parent, child and its child, composing at any point, with calls after each step"),
        sizes("C18"),
    ]
