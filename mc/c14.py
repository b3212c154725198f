"""C14: defaults - every short history of defaults and build calls, judged by what the built patterns match."""
from __future__ import annotations

import copy
import itertools
from collections import OrderedDict

from rebulk import Rebulk, RenameMatch, Rule

from .core import Family, Violation
from .refpattern import RM, process, resolve, view
from .sizes import sizes

ASSUMPTIONS = ["values in lists and dicts are atoms or functions; an option that is a list in two places and something else in between (defaults, type-specific defaults, explicit) counts as given where it is most specific; the 'clear' pseudo option and overriding an option that is not given are outside the property"]

TEXT = "abxAB"


class Items(list):
    """A list of the caller's own kind."""


OPTS = [
    {"name": "n"}, {"name": "m", "tags": ["g"]}, {"tags": ["a", "b"]}, {"tags": ["c"]}, {"value": {"n": "V1", "m": "W1"}}, {"value": {"n": "V2", None: "V3"}}, {"value": "plain"},
    {"private": True}, {"private": False, "tags": []}, {"validator": {"__parent__": "@v_even"}}, {"validator": "@v_never", "name": "n"}, {"formatter": {"m": "@up", None: "@wrap"}}, {"formatter": {"n": "@len"}},
    {"private_names": ["n"]}, {"private_names": ["m"], "marker": True},
    {"formatter": {"clear": "@up", "n": "@wrap"}, "value": {"clear": "V4"}}, {"name": "clear", "formatter": {"overrides": "@len"}, "validator": {"clear": "@v_even"}},
    {"tags": ("g", "h"), "private_names": ("m",), "formatter": OrderedDict({"n": "@wrap"})}, {"tags": Items(["z"]), "private_names": Items(["n"])},
    {"name": None, "tags": None}, {"value": None, "validator": None, "formatter": None, "private_names": None},
]
KINDS = ["string", "regex", "functional", "chain"]
WHERE = ["defaults", "string_defaults", "regex_defaults", "functional_defaults", "chain_defaults"]
PATTERNS = {"string": "ab", "regex": "a(b)", "functional": ((0, 2),)}


def function(string):
    return [(0, 2)]


def merge(base, more_specific):
    out = dict(base)
    for k, v in more_specific.items():
        if k in out and isinstance(v, list) and isinstance(out[k], list):
            out[k] = out[k] + v
        elif k in out and isinstance(v, dict) and isinstance(out[k], dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = v
    return out


class Model:
    def __init__(self):
        self.d = {w: {} for w in WHERE}

    def set(self, where, opts):
        self.d[where].update(opts)

    def effective(self, kind, explicit, overrides=()):
        opts = merge(self.d["defaults"], merge(self.d[f"{kind}_defaults"], explicit))
        opts.update({k: explicit[k] for k in overrides})
        return opts


def expected(kind, opts, part_opts=None):
    """Views of the matches of one pattern on TEXT."""
    if kind != "chain":
        return process(kind, (PATTERNS[kind],), TEXT, opts)
    parts = process("string", ("ab",), TEXT, part_opts)
    if not parts:
        return []
    import mc.refpattern as ref

    m = RM(0, 2, opts.get("name"), TEXT, bool(opts.get("private")), bool(opts.get("marker")), opts.get("tags") or ())
    saved = ref.raw_matches
    try:
        ref.raw_matches = lambda *a: [m]
        return process("chain", (), TEXT, opts)
    finally:
        ref.raw_matches = saved


def brief(m):
    return (m.start, m.end, m.name, bool(m.private), bool(m.marker), list(m.tags), m.value)


def build(bulk, kind, options):
    if kind == "string":
        ret = bulk.string("ab", **options)
    elif kind == "regex":
        ret = bulk.regex("a(b)", **options)
    elif kind == "functional":
        ret = bulk.functional(function, **options)
    else:
        ret = bulk.chain(**options).string("ab").close()
    if ret is not bulk:
        raise Violation(f"building a {kind} pattern returned {ret!r}, not the builder")


def run(ctx, case):
    """case: sequence of ('set', where, option index) and ('build', kind, option index or None, overrides)"""
    bulk, other, model, want, passed = Rebulk(default_rules=False), Rebulk(default_rules=False), Model(), [], []
    for op in case:
        opts = {} if op[2] is None else {k: resolve(v) for k, v in OPTS[op[2]].items()}
        passed.append((opts, {k: copy.copy(v) for k, v in opts.items()}))
        raw = {} if op[2] is None else OPTS[op[2]]
        if op[0] == "reset":
            bulk.reset()
            model = Model()
        elif op[0] == "set":
            ctx.ok(getattr(bulk, op[1])(**opts) is bulk, f"{op[1]}() returns the builder")
            model.set(op[1], raw)
        else:
            overrides = [k for k in raw] if op[3] else []
            form = (list, tuple, set, iter, dict.fromkeys)[(len(case) + case.index(op)) % 5]
            build(bulk, op[1], {**opts, "overrides": form(overrides)} if op[3] else opts)
            eff = model.effective(op[1], raw, overrides)
            part = model.effective("string", {}) if op[1] == "chain" else None
            want.append(expected(op[1], eff, part))
    # another builder is not affected
    other.string("ab").regex("a(b)").functional(function)
    patterns = bulk.effective_patterns()
    ctx.eq(len(patterns), len(want), "patterns built")
    for i, (p, w) in enumerate(zip(patterns, want)):
        got = p.matches(TEXT)
        ctx.ran()
        ctx.eq([brief(m) for m in got], [brief(m) for m in w], lambda: f"{[(o[0], o[1], OPTS[o[2]] if o[2] is not None else None) + o[3:] for o in case]}: pattern {i}")
        got = p.matches(TEXT)
        ctx.eq([brief(m) for m in got], [brief(m) for m in w], lambda: f"{case}: pattern {i}, second call")
    ctx.eq([brief(m) for m in other.matches(TEXT)], [(0, 2, None, False, False, [], "ab")] * 3, f"{case}: another builder")
    for opts, before in passed:
        ctx.eq(opts, before, lambda: f"{case}: objects passed by the caller")
    ctx.state((case[-1], [list(map(brief, w)) for w in want]))


def cases(tier):
    deep = tier == "thorough"
    sets = [("set", w, o) for w in WHERE for o in range(len(OPTS) - 2)]  # the last two: None, only explicit
    builds = [("build", k, o, ov) for k in KINDS for o in [None, *range(len(OPTS))] for ov in ((False, True) if o is not None else (False,))]
    plain = [b for b in builds if not b[3]]
    some = [b for b in plain if b[2] in (None, 1, 3, 5, 9)]
    for b in builds:
        yield (b,)
    for s, b in itertools.product(sets, builds):
        yield s, b
        yield b, s, b
    reset = ("reset", None, None, False)
    for s, b in itertools.product(sets, some):
        yield s, reset, b
        yield s, b, reset, b
        yield reset, s, b
    for s, t in itertools.product(sets[::2], sets):
        for b in some:
            yield s, reset, t, b
    for s, t in itertools.product(sets, sets):
        for b in builds if deep else some:
            if s[1] in ("defaults", f"{b[1]}_defaults") and t[1] in ("defaults", f"{b[1]}_defaults"):
                yield s, t, b
            elif deep:
                yield s, t, b
    for b, s, c in itertools.product(some, sets, some):
        yield b, s, c
    for s, b, t, c in itertools.product(sets[:15] if not deep else sets, some[::2] if not deep else some, sets[15:30:2] if not deep else sets[::2], some[:3] if not deep else some):
        yield s, b, t, c


# -- chain builders: a copy of the defaults at creation -------------------------------------------
PART_OPTS = [{"name": "n"}, {"name": "m", "tags": ["g"]}, {"tags": ["a", "b"]}, {"tags": ["c"]}, {"private": True, "tags": ["p"]}]


def chain_run(ctx, case):
    """ops: ('p', where, opt) on the parent, ('c', where, opt) on the chain builder, ('n', where, opt) on a nested one, ('chain',), ('nest',), ('part', kind, opt), ('pattern', kind, opt)"""
    bulk = Rebulk(default_rules=False)
    models = {"p": Model()}
    builders = {"p": bulk}
    want_parts, want_patterns, parts = [], [], []
    for op in case:
        if op[0] == "chain":
            builders["c"] = bulk.chain()
            models["c"] = copy.deepcopy(models["p"])
        elif op[0] == "nest":
            builders["n"] = builders["c"].chain()
            models["n"] = copy.deepcopy(models["c"])
        elif op[0] in ("p", "c", "n"):
            opts = copy.deepcopy(PART_OPTS[op[2]])
            ctx.ok(getattr(builders[op[0]], op[1])(**opts) is builders[op[0]], f"{op[1]}() returns the builder")
            models[op[0]].set(op[1], PART_OPTS[op[2]])
            ctx.eq(opts, PART_OPTS[op[2]], f"{case}: caller's objects")
        else:
            where = {"part": "c", "npart": "n", "pattern": "p"}[op[0]]
            opts = {} if op[2] is None else copy.deepcopy(PART_OPTS[op[2]])
            eff = models[where].effective(op[1], opts)
            row = (eff.get("name"), list(eff.get("tags") or []), bool(eff.get("private")))
            if where == "p":
                build(bulk, op[1], opts)
                want_patterns.append(row)
            else:
                args = {"string": "ab", "regex": "ab", "functional": lambda s: [(0, 2)]}
                getattr(builders[where], op[1])(args[op[1]], **opts)
                want_parts.append(row)
            ctx.eq(opts, {} if op[2] is None else PART_OPTS[op[2]], f"{case}: caller's objects")
    text = "ab" * len(want_parts)
    patterns = bulk.effective_patterns()
    got_parts, got_patterns = [], []
    for p in patterns:
        ms = p.matches(text)
        ctx.ran()
        if type(p).__name__ == "Chain":
            got_parts = [(m.name, list(m.tags), bool(m.private)) for m in (ms[0].children if ms else ()) if len(m) == 2 and type(m.pattern).__name__ != "Chain"]
        else:
            got_patterns.append((ms[0].name, list(ms[0].tags), bool(ms[0].private)))
    ctx.eq(got_parts, want_parts, f"{case}: chain parts")
    ctx.eq(got_patterns, want_patterns, f"{case}: patterns")
    ctx.state((want_parts, want_patterns))


def chain_cases(tier):
    deep = tier == "thorough"
    wheres = ["defaults", "string_defaults", "regex_defaults", "functional_defaults"]
    setp = [("p", w, o) for w in wheres for o in range(len(PART_OPTS))]
    setc = [("c", w, o) for w in wheres for o in range(len(PART_OPTS))]
    kinds = ["string", "regex", "functional"]
    parts = [("part", k, o) for k in kinds for o in (None, 1, 3)]
    patterns = [("pattern", k, o) for k in kinds for o in (None, 2)]
    for s in setp:
        for c in setc:
            for p in parts:
                for q in patterns:
                    yield s, ("chain",), c, p, q
                    yield ("chain",), s, c, p, q
                    yield s, ("chain",), c, p, s, p, q
        for t in setp:
            for p in parts:
                yield s, ("chain",), t, p
                yield s, ("chain",), p, t, p
    for s, c in itertools.product(setp[::2], setc[::2]):
        for d in setc[:5]:
            n = ("n", d[1], d[2])
            for p in parts[::2]:
                yield s, ("chain",), p, c, ("nest",), n, ("npart", p[1], p[2])
                yield s, ("chain",), p, ("nest",), c, n, ("npart", p[1], p[2])


# -- reset() in the life of a builder: what was registered stays, whatever it is ---------------------
def reset_run(ctx, case):
    """case: (options of the constructor, registrations; a letter of them is done before reset() if upper case)"""
    disabled, default_rules, history = case

    def made(resets):
        bulk = Rebulk(disabled=(lambda context: bool((context or {}).get("off"))) if disabled else False, default_rules=default_rules)
        for letter in history:
            if letter == "!":
                if resets:
                    bulk.reset()
            elif letter == "d":
                if resets:  # forgotten by what follows a reset() anyway
                    bulk.defaults(name="x").string_defaults(tags=["s"])
            elif letter == "p":
                bulk.string("ab", name="p", private=default_rules)
            elif letter == "l":
                bulk.regex("abc", name="l")
            elif letter == "r":
                bulk.rules(Renamer)
            elif letter == "c":
                bulk.chain(name="chain").string("a").string("b", name="b").close()
            elif letter == "k":
                bulk.rebulk(Rebulk(default_rules=False).string("b", name="child").rules(Renamer))
        return bulk

    got, want = made(True), made(False)
    for context in (None, {"off": True}):
        ctx.ran()
        ctx.eq([brief(m) for m in got.matches("ab abc", context)], [brief(m) for m in want.matches("ab abc", context)], lambda: f"{case}: reset() in between, context {context}")
    ctx.eq(len(got.effective_rules()), len(want.effective_rules()), lambda: f"{case}: rules")
    ctx.state((case, [brief(m) for m in want.matches("ab abc")]))


class Renamer(Rule):
    consequence = RenameMatch("renamed")

    def when(self, matches, context):
        return matches.named("l") or None


def reset_cases(tier):
    for disabled, rules in itertools.product((False, True), repeat=2):
        for n in range(1, 4 if tier == "thorough" else 3):
            for before in itertools.product("plrck", repeat=n):
                for after in [()] + [(x,) for x in "plrck"] + ([tuple(y) for y in itertools.product("plc", repeat=2)] if n < 3 else []):
                    if (before + after).count("r") <= 1:
                        yield disabled, rules, "".join(before) + "d!" + "".join(after)
                        yield disabled, rules, "".join(before[:1]) + "!" + "".join(before[1:]) + "d!" + "".join(after)


# -- chains opened on the builder, on its chains and on theirs: defaults given anywhere --------------
def tree_run(ctx, case):
    """ops: ('set', level, where, opt), ('open', level): a chain opened on the last builder of that level, holding one string."""
    bulk = Rebulk(default_rules=False)
    builders, models = [bulk], [Model()]
    roots, path = [], []
    for op in case:
        level = op[1]
        if level >= len(builders):
            return
        if op[0] == "set":
            opts = copy.deepcopy(PART_OPTS[op[3]])
            getattr(builders[level], op[2])(**opts)
            models[level].set(op[2], PART_OPTS[op[3]])
        else:
            eff = models[level].effective("chain", {})
            node = ((eff.get("name"), list(eff.get("tags") or []), bool(eff.get("private"))), [])
            (path[level - 1][1] if level else roots).append(node)
            part = models[level].effective("string", {})
            node[1].append(((part.get("name"), list(part.get("tags") or []), bool(part.get("private"))), None))
            del builders[level + 1:], models[level + 1:], path[level:]
            builders.append(builders[level].chain())
            models.append(copy.deepcopy(models[level]))
            path.append(node)
            builders[-1].string("ab")

    def want_of(node):
        """Matches of one chain: the parts in order, each nested chain after what it holds."""
        out = []
        for row, sub in node[1]:
            if sub is None:
                out.append(row)
            else:
                out += want_of((row, sub)) + [row]
        return out

    def size(node):
        return sum(1 if sub is None else size((row, sub)) for row, sub in node[1])

    patterns = bulk.effective_patterns()
    ctx.eq(len(patterns), len(roots), lambda: f"{case}: chains")
    for i, (p, node) in enumerate(zip(patterns, roots)):
        ms = p.matches("ab" * size(node))
        ctx.ran()
        rows = [(m.name, list(m.tags), bool(m.private)) for m in ms[:1]]
        ctx.eq(rows, [node[0]], lambda: f"{case}: chain {i}")
        got = [(m.name, list(m.tags), bool(m.private)) for m in ms[0].children]
        ctx.eq(got, want_of(node), lambda: f"{case}: parts of chain {i}")
    ctx.state(roots)


def tree_cases(tier):
    deep = tier == "thorough"
    opts = range(len(PART_OPTS)) if deep else (0, 1, 3)
    wheres = ["defaults", "chain_defaults"] + (["string_defaults"] if deep else [])
    for n in (1, 2, 3, 4, 5):
        few = list(opts)[:2] if n > 4 else opts
        ops = [("set", level, w, o) for level in (0, 1, 2) for w in (wheres[:2] if deep or n < 5 else wheres[1:2]) for o in few] + [("open", level) for level in (0, 1, 2)]
        for seq in itertools.product(ops, repeat=n):
            if seq[-1][0] != "open":
                continue
            depth, valid = 0, True
            for op in seq:
                if op[1] > depth:
                    valid = False
                    break
                if op[0] == "open":
                    depth = op[1] + 1
            if valid:
                yield seq


def families():
    return [
        Family("histories", cases, run, "every sequence of up to 3 (4: reduced menus) defaults/build calls over 15 option sets x 5 scopes x 4 kinds of patterns x overrides"),
        Family("chains_of_chains", tree_cases, tree_run, "every sequence of up to 5 calls (5: fewer options) setting defaults on, or opening a chain from, the builder, a chain and a nested chain"),
        Family("reset", reset_cases, reset_run, "reset() after defaults, at every place of a history of up to 4 registrations (string, regex, rule, chain, child) on builders of every kind of construction"),
        Family("chain_builders", chain_cases, chain_run, "histories over a parent builder, its chain builder and a nested one"),
        sizes("C14"),
    ]
