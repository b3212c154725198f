"""C06: consequences change exactly the designated matches (all histories of few consequences, interleaved with lookups)."""
from __future__ import annotations

import itertools

from rebulk import AppendMatch, AppendTags, CustomRule, Rebulk, RemoveMatch, RemoveTags, RenameMatch, Rule
from rebulk.match import Markers, Match, Matches
from rebulk.utils import IdentitySet

from .core import Family
from .lookups import coherent
from .sizes import sizes

ASSUMPTIONS = [
    "a match that is absent while an equal one is present is not designated for removal, renaming or tagging (which one is meant is not specified)",
    "renamed and tagged matches may move in the list; the other matches keep their order",
    "a renamed match which becomes equal to a present one may be merged with it",
]

# (start, end, name, tags, in the collection at the start[, value, span of the parent]); X1 is an equal twin of X0, A4 an absent equal of X2
POOLS = {
    "twins": [(0, 2, "a", ["t"], True), (0, 2, "a", ["u"], True), (1, 3, "b", [], True), (3, 5, "c", ["t"], False)],
    "rename": [(0, 2, "a", ["t", "u"], True), (0, 2, "b", [], True), (2, 4, None, [], True), (0, 2, "z", [], False)],
    "absent": [(1, 3, "b", ["t"], True), (1, 3, "b", ["u"], False), (0, 5, "a", ["u", "t"], True), (2, 3, "z", [], False)],
    "values": [(0, 2, "a", ["t"], True, "V1", None), (0, 2, "z", [], True, "V2", None), (0, 2, "a", ["u"], True, "V2", (0, 3)), (0, 2, "z", [], False, "V1", None)],
}
NAMES, TAGS, TOP = ["a", "b", "c", "z", "q"], ["t", "u", "n", "q"], 6

CONSEQUENCES = [("remove",), ("append",), ("append", "z"), ("rename", "z"), ("rename", "a"), ("tag", ("n",)), ("tag", ("t", "n")), ("untag", ("t",)), ("untag", ("n", "u", "t"))]


def consequence(kind):
    name, args = kind[0], kind[1:]
    if name == "remove":
        return RemoveMatch()
    if name == "append":
        return AppendMatch(*args)
    if name == "rename":
        return RenameMatch(*args)
    return (AppendTags if name == "tag" else RemoveTags)(list(args[0]))


TARGETS = [("single", (0,)), ("single", (1,)), ("single", (2,)), ("single", (3,)), ("list", ()), ("list", (0,)), ("list", (0, 1)), ("list", (2, 0)), ("list", (3, 1)), ("list", (3, 2, 0)),
           ("tuple", (1, 2)), ("gen", (0, 1, 2, 3)), ("gen", (1,)), ("set", (1, 3)), ("set", (0, 2)), ("self", ()), ("named", "a"), ("tagged", "t"), ("view", (0, 3))]


class Model:
    """Identity list with names and tags of every pool match."""

    def __init__(self, rows):
        self.present = [i for i, r in enumerate(rows) if r[4]]
        self.rows = rows
        self.name = [r[2] for r in rows]
        self.tags = [list(r[3]) for r in rows]

    def same(self, i, j):
        return self.name[i] == self.name[j] and self.rows[i][:2] + self.rows[i][5:] == self.rows[j][:2] + self.rows[j][5:]


def apply(model, kind, targets):
    """Returns None when the case is out of the property, else a pair (allowed to be present, must be present); mutates names and tags."""
    name = kind[0]
    if name == "append":
        for t in targets:
            if not any(model.same(t, p) for p in model.present):
                if len(kind) > 1:
                    model.name[t] = kind[1]
                model.present.append(t)
        return list(model.present), list(model.present)
    goal = []
    for t in targets:
        if t in goal:
            if any(model.same(t, p) for p in model.present if p not in goal):
                return None
            continue
        if t in model.present:
            goal.append(t)
        elif any(model.same(t, p) for p in model.present if p not in goal):
            return None
    rest = [p for p in model.present if p not in goal]
    if name == "remove":
        model.present = rest
        return list(rest), list(rest)
    if name == "rename":
        for t in goal:
            model.name[t] = kind[1]
        must = list(rest)
        for t in goal:
            if not any(model.same(t, p) for p in must):
                must.append(t)
        return rest + goal, must
    for t in goal:
        for tag in kind[1]:
            if name == "tag":
                model.tags[t].append(tag)
            else:
                model.tags[t] = [x for x in model.tags[t] if x != tag]
    return rest + goal, rest + goal


def made(row, marker):
    start, end, name, tags = row[:4]
    value, parent = row[5:] or (None, None)
    return Match(start, end, value=value, name=name, tags=list(tags), marker=marker, parent=parent and Match(*parent, input_string="abcdef"), input_string="abcdef")


def run(ctx, case):
    pool_name, marker, warm, steps = case
    rows = POOLS[pool_name]
    pool = [made(row, marker) for row in rows]
    index = {id(m): i for i, m in enumerate(pool)}
    c = (Markers if marker else Matches)([m for m, r in zip(pool, rows) if r[4]], input_string="abcdef")
    model = Model(rows)
    for step, (kind, (form, members)) in enumerate(steps):
        if warm == "all" or (warm == "first" and step == 0):
            coherent(ctx, c, NAMES, TAGS, TOP, "before")
        what = lambda: f"{case} after step {step}"
        if form == "self":
            targets, response = list(model.present), c
        elif form == "named":
            targets = [i for i in model.present if model.name[i] == members]
            response = c.named(members)
        elif form == "tagged":
            targets = [i for i in model.present if members in model.tags[i]]
            response = c.tagged(members)
        elif form == "view":
            targets = model.present[slice(*members)]
            response = c[slice(*members)]
        else:
            targets = list(members)
            ms = [pool[i] for i in members]
            response = {"single": lambda: ms[0], "list": lambda: ms, "tuple": lambda: tuple(ms), "gen": lambda: (m for m in ms), "set": lambda: IdentitySet(ms)}[form]()
        if form == "set" and kind[0] == "append":
            if any(model.same(i, j) for i, j in itertools.combinations(targets, 2)):
                return
        before = list(model.present)
        limits = apply(model, kind, targets)
        if limits is None:
            return
        tags = list(kind[1]) if kind[0] in ("tag", "untag") else None
        cons = consequence(kind)
        cons.then(c, response, {})
        ctx.ran()
        if tags is not None:
            ctx.eq(list(cons.tags), tags, what)
        got = [index[id(m)] for m in c]
        ctx.eq(len(got), len(set(got)), lambda: what() + ": duplicates")
        may, must = limits
        if kind[0] in ("append", "remove"):
            key = sorted if form == "set" else list
            ctx.eq(key(got), key(must), what)
        else:
            # merged matches: which of several equal renamed ones stays is free
            ctx.ok(set(got) <= set(may), lambda: what() + f": {got} appeared, may be {may}")
            for i in may:
                ctx.ok(i in got or (kind[0] == "rename" and i in targets and any(model.same(i, g) for g in got)), lambda: what() + f": {i} lost, got {got}")
            still = [i for i in before if i not in targets]
            ctx.eq([g for g in got if g in still], still, lambda: what() + ": order of the others")
        model.present = got
        for i, m in enumerate(pool):
            ctx.eq((m.start, m.end, m.name, sorted(m.tags)), (rows[i][0], rows[i][1], model.name[i], sorted(model.tags[i])), lambda: what() + f": match {i}")
        if warm != "never" or step == len(steps) - 1:
            coherent(ctx, c, NAMES, TAGS, TOP, what)
        # each match owns its tags: a change of one is seen nowhere else
        for i, m in enumerate(pool):
            m.tags.append("probe")
            for j, other in enumerate(pool):
                ctx.ok(j == i or "probe" not in other.tags, lambda: what() + f": tags of match {i} are those of match {j}")
            ctx.ok(tags is None or "probe" not in cons.tags, lambda: what() + f": tags of match {i} are those of the consequence")
            m.tags.remove("probe")
    ctx.state((pool_name, model.present, model.name, model.tags))


def cases(tier):
    deep = tier == "thorough"
    steps = list(itertools.product(CONSEQUENCES, TARGETS))
    for pool in POOLS:
        for marker in (False, True):
            for warm in ("all", "first", "never"):
                for one in steps:
                    yield pool, marker, warm, (one,)
                if marker and not deep:
                    continue
                for pair in itertools.product(steps, steps):
                    if warm != "first" or deep:
                        yield pool, marker, warm, pair
    if deep:
        small = [(k, t) for k in CONSEQUENCES for t in TARGETS if t[1] in ((0,), (1,), (2, 0), (3, 1), (0, 1), "a", ())]
        for pool in POOLS:
            for triple in itertools.product(small, repeat=3):
                yield pool, False, "first", triple


# -- through rules: lists of consequences, classes or instances, several calls -------------------
RULE_KINDS = [("remove",), ("append", "z"), ("rename", "z"), ("tag", ("n",)), ("untag", ("t",))]
PICKS = ["first", "last", "all", "list1", "none", "gen"]


def pick(matches, how):
    ms = list(matches)
    if how == "first":
        return ms[0]
    if how == "last":
        return ms[-1]
    if how == "list1":
        return ms[1:2]
    if how == "gen":
        return (m for m in ms[:2])
    return ms if how == "all" else []


def rule_run(ctx, case):
    kinds, picks, style = case
    tags = ["t", "u"]
    config_tags = list(tags)
    cons = [consequence(k) if style != "class" or k[0] != "remove" else RemoveMatch for k in kinds]
    responses = {}

    class R(Rule):
        consequence = cons if style != "tuple" else tuple(cons)

        def when(self, matches, context):
            ms = list(matches)
            if len(cons) == 1 and style == "single":
                return pick(ms, picks[0])
            ret = [Match(4, 5, name="q", tags=["t"], input_string=matches.input_string) if k[0] == "append" else pick(ms, p) for k, p in zip(kinds, picks)]
            return {"tuple": tuple, "class": iter}.get(style, list)(ret)

    if style == "single":
        R.consequence = cons[0]
    bulk = Rebulk(default_rules=False).string("ab", name="s", tags=config_tags).string("cd", name="c", tags=config_tags).string("ef", name="r", tags=config_tags).regex("e", name="g", tags=config_tags).rules(R)
    rows = [(0, 2, "s"), (2, 4, "c"), (4, 6, "r"), (4, 5, "g")]
    want = None
    for call in range(2):
        got = bulk.matches("abcdef")
        ctx.ran()
        names = [r[2] for r in rows]
        mtags = [list(tags) for _ in rows]
        spans = [r[:2] for r in rows]
        present = [0, 1, 2, 3]
        base = {"first": [0], "last": [3], "all": [0, 1, 2, 3], "list1": [1], "none": [], "gen": [0, 1]}
        for k, p in zip(kinds, picks):
            if style == "single" and k[0] == "append":
                continue  # everything picked is present already
            if k[0] == "append":
                # a new match named z, unless an equal one (named q) is there already
                if not any(spans[i] == (4, 5) and names[i] == "q" for i in present):
                    spans.append((4, 5))
                    names.append("z")
                    mtags.append(["t"])
                    present.append(len(names) - 1)
                continue
            goal = [i for i in base[p] if i in present]
            if k[0] == "remove":
                present = [i for i in present if i not in goal]
            elif k[0] == "rename":
                for i in goal:
                    names[i] = "z"
                keep = [i for i in present if i not in goal]
                for i in goal:
                    if not any(spans[i] == spans[j] and names[i] == names[j] for j in keep):
                        keep.append(i)
                present = keep
            else:
                for i in goal:
                    mtags[i] = mtags[i] + list(k[1]) if k[0] == "tag" else [t for t in mtags[i] if t not in k[1]]
        # equal matches are told apart by tags only: compare as sorted rows, merged renames as sets of (span, name)
        rows_want = sorted((spans[i], names[i] or "") for i in present)
        rows_got = sorted((m.span, m.name or "") for m in got)
        ctx.eq(rows_got, rows_want, f"{case} call {call}")
        if not any(k[0] == "rename" for k in kinds):
            ctx.eq(sorted((m.span, m.name, sorted(m.tags)) for m in got), sorted((spans[i], names[i], sorted(mtags[i])) for i in present), f"{case} call {call}: tags")
        ctx.eq(config_tags, tags, f"{case}: tags given at configuration")
        for i, m in enumerate(got):
            m.tags.append(f"mine{i}")
        for i, m in enumerate(got):
            ctx.eq([t for t in m.tags if t.startswith("mine")], [f"mine{i}"], f"{case}: tags shared between matches")
        for k, c in zip(kinds, cons):
            if k[0] in ("tag", "untag"):
                ctx.eq(c.tags, list(k[1]), f"{case}: tags of the consequence")
        coherent(ctx, got, ["s", "c", "r", "g", "z", "q"], ["t", "u", "n"], 7, str(case))
        ctx.eq(config_tags, tags, f"{case}: tags given at configuration")
    ctx.state((case, rows_want))


def rule_cases(tier):
    for k in RULE_KINDS:
        for p in PICKS:
            yield (k,), (p,), "single"
    for n in (1, 2, 3):
        for kinds in itertools.product(RULE_KINDS, repeat=n):
            for picks in itertools.product(PICKS if n < 3 or tier == "thorough" else ("first", "all", "list1"), repeat=n):
                if any(k[0] == "append" and p != "none" for k, p in zip(kinds, picks)):
                    continue
                for style in ("list", "tuple", "class"):
                    yield kinds, picks, style


def families():
    return [
        Family("histories", cases, run, "every sequence of up to 2 (thorough 3 on a smaller menu) consequences x designations (single, list, tuple, generator, set, live result of a lookup), four pools, cold or warm lookups"),
        Family("rules", rule_cases, rule_run, "every rule with up to 3 consequences (classes or instances, list or tuple; responses as list, tuple or iterator) through Rebulk.matches, twice"),
        sizes("C06"),
    ]
