"""C26: stages - what a custom rule sees and what becomes of its changes, for every small set of matches and every priority around the default rules."""
from __future__ import annotations

import itertools

from rebulk import POST_PROCESS, PRE_PROCESS, CustomRule, Key, Rebulk, Rule
from rebulk.match import Match

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["matches without children nor conflict solvers; rules act on what they see by a small table of actions"]
TEXT = "abcdefgh"
# (start, end, name, private)
SPANS = [(0, 3, "long", False), (2, 4, "short", False), (4, 6, "apart", False), (2, 4, "short", True), (0, 6, "hidden", True)]
PRIORITIES = [PRE_PROCESS + 1, PRE_PROCESS, PRE_PROCESS - 1, 0, POST_PROCESS + 1, POST_PROCESS, POST_PROCESS - 1]
ACTIONS = ["look", "add long", "add short", "add private", "remove first", "hide first", "show all", "rename"]
NEW = {"add long": (1, 7, "new", False), "add short": (5, 6, "new", False), "add private": (3, 5, "new", True)}


def const(value):
    return lambda s: value


def fact(m):
    return m.start, m.end, m.name, bool(m.private)


# -- reference: lists of [start, end, name, private] ---------------------------------------------
def solve(rows):
    def overlap(a, b):
        return a[0] < b[1] and b[0] < a[1]

    return [r for r in rows if r[3] or not any(not o[3] and overlap(r, o) and o[1] - o[0] > r[1] - r[0] for o in rows)]


def apply_reference(action, rows):
    if action in NEW:
        rows.append(list(NEW[action]))
    elif action == "remove first":
        del rows[:1]
    elif action == "hide first":
        rows[0][3] = True
    elif action == "show all":
        for r in rows:
            r[3] = False
    elif action == "rename":
        for r in rows:
            r[2] = "renamed"


def reference(rows, rules, default_rules):
    """rules: (priority, action) in registration order, after the default rules."""
    rows = [list(r) for r in rows]
    stages = [(PRE_PROCESS, 0, "solve"), (POST_PROCESS, 1, "reveal")] if default_rules else []
    stages += [(p, 2 + i, i) for i, (p, _) in enumerate(rules)]
    seen = {}
    for _, _, what in sorted(stages, key=lambda s: (-s[0], s[1])):
        if what == "solve":
            rows = solve(rows)
        elif what == "reveal":
            rows = [r for r in rows if not r[3]]
        else:
            seen[what] = [tuple(r) for r in rows]
            if rows or rules[what][1] in NEW:
                apply_reference(rules[what][1], rows)
    return seen, [tuple(r) for r in rows]


def make_rule(i, priority, action, seen, around):
    def when(self, matches, context):
        seen[i] = [fact(m) for m in matches]
        around.append((sorted(matches.declared_keys), matches.input_string, [m.span for m in matches.markers], context["k"]))
        return matches or action in NEW

    def then(self, matches, when_response, context):
        if action in NEW:
            start, end, name, private = NEW[action]
            matches.append(Match(start, end, name=name, private=private, input_string=matches.input_string))
        elif action == "remove first":
            del matches[0]
        elif action == "hide first":
            matches[0].private = True
        elif action == "show all":
            for m in matches:
                m.private = False
        elif action == "rename":
            for m in list(matches):
                matches.remove(m)
                m.name = "renamed"
                matches.append(m)

    return type(f"R{i}", (CustomRule, Rule)[i % 2:i % 2 + 1], {"priority": priority, "when": when, "then": then})


def run(ctx, case):
    chosen, rules, default_rules, where = case
    rows = [SPANS[i] for i in chosen]
    want_seen, want = reference(rows, rules, default_rules)
    seen, around = {}, []
    bulk = Rebulk(default_rules=default_rules).declare_keys(Key("k", int)).functional(const([(0, 2)]), marker=True)
    classes = [make_rule(i, p, a, seen, around) for i, (p, a) in enumerate(rules)]
    if where != "here":  # matches and rules of a child go through the same stages
        child = Rebulk(default_rules=where == "child").declare_keys(Key("ck", int))
        for start, end, name, private in rows:
            child.functional(const([(start, end)]), name=name, private=private)
        child.rules(*classes)
        bulk.rebulk(child)
    else:
        for start, end, name, private in rows:
            bulk.functional(const([(start, end)]), name=name, private=private)
        bulk.rules(*classes)
    got = bulk.matches(TEXT, {"k": 1})
    ctx.ran()
    what = lambda: f"matches {rows}, rules {rules}{'' if default_rules else ', no default rules'} ({where})"
    ctx.eq(seen, want_seen, lambda: what() + ": what the rules saw")
    ctx.eq([fact(m) for m in got], want, what)
    for other in around:
        ctx.eq(other, (["k"] if where == "here" else ["ck", "k"], TEXT, [(0, 2)], 1), lambda: what() + ": declared keys, text, markers and context the rules saw")
    ctx.state((want_seen, want))


def cases(tier):
    deep = tier == "thorough"
    sets = [c for k in range(4) for c in itertools.permutations(range(len(SPANS)), k)]
    for chosen in sets:
        for default_rules in (True, False):
            for where in ("here", "child", "bare child") if default_rules else ("here",):
                for p in PRIORITIES:
                    for a in ACTIONS:
                        yield chosen, ((p, a),), default_rules, where
    few = sets if deep else [c for c in sets if len(c) == 2 and c[0] < c[1]] + [(0, 1, 2), (1, 3, 0), (4, 3, 1), (2, 4, 0)]
    for chosen in few:
        for where in ("here", "child", "bare child"):
            for p, q in itertools.product(PRIORITIES, repeat=2):
                for a, b in itertools.product(ACTIONS, repeat=2):
                    if p == q and not deep and ACTIONS.index(a) % 2:
                        continue
                    yield chosen, ((p, a), (q, b)), True, where


def families():
    return [Family("stages", cases, run, "every sequence of up to 3 of 5 matches (overlapping, private, apart) x one rule at 7 priorities around the default rules x 8 actions (two rules: fewer matches), on the Rebulk or a child (with its own default rules or not), with and without default rules"), sizes("C26")]
