"""C21: introspection and check_keys - every pair of patterns of a menu on parent and child, compared with what matches() really returns."""
from __future__ import annotations

import itertools

from rebulk import Key, Rebulk
from rebulk.introspector import PatternDescription, introspect
from rebulk.rules import Rule

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["patterns take their names from name=, groups and properties=; value names are those of the pattern; chains are judged for check_keys only"]


def spans(ch):
    return lambda s: [(i, i + 1) for i, c in enumerate(s) if c == ch]


# kind, patterns, options
MENU = {
    "s": ("string", ("a",), {}),
    "s_n": ("string", ("a", "bc"), {"name": "n"}),
    "s_nv": ("string", ("a", "b"), {"name": "n", "value": "V"}),
    "s_nv2": ("string", ("c",), {"name": "n", "value": {"n": "W"}}),
    "s_other": ("string", ("b",), {"name": "m", "value": {"n": "W"}}),
    "s_priv": ("string", ("b",), {"name": "p", "private": True}),
    "s_mark": ("string", ("c",), {"name": "k", "marker": True}),
    "s_props": ("string", ("c",), {"name": "q", "properties": {"q": ["c", "C"], "r": [1]}}),
    "r": ("regex", ("a",), {}),
    "r_n": ("regex", ("b", "c"), {"name": "n"}),
    "r_g": ("regex", ("(?P<x>a)(?P<y>b)?",), {"name": "n", "every": True}),
    "r_gc": ("regex", ("(?P<x>a)", "(?P<z>c)"), {"children": True}),
    "r_gv": ("regex", ("(?P<x>a)(?P<y>b)",), {"name": "n", "every": True, "value": {"x": "VX"}}),
    "r_gv2": ("regex", ("(?P<x>a)(b)",), {"name": "n", "every": True, "value": "V"}),
    "r_gv3": ("regex", ("(?P<y>[bc])",), {"children": True, "value": {"__children__": "VC"}}),
    "r_gv0": ("regex", ("(?P<x>a)(?P<y>b)",), {"children": True, "value": {"x": 0}}),
    "r_gv00": ("regex", ("(?P<x>b)",), {"name": "n", "every": True, "value": {"x": "", "n": False}}),
    "r_gv4": ("regex", ("(?P<y>c)",), {"value": {None: "V0", "n": "VN"}, "name": "n", "every": True}),
    "r_gv5": ("regex", ("(?P<x>a)", "(?P<z>c)", "(?P<y>b)(?P<v>c)?"), {"children": True, "value": {"x": "VX", "y": 2}}),
    "r_gv6": ("regex", ("a", "(?P<z>b)"), {"every": True, "name": "n", "value": {"z": "VZ"}}),
    "r_pc": ("regex", ("(?P<x>a)(?P<w>b)",), {"name": "n", "every": True, "private_children": True}),
    "r_pp": ("regex", ("(?P<w>b)",), {"name": "p", "children": True, "private_parent": True}),
    "r_pn": ("regex", ("(?P<x>b)(?P<y>c)",), {"name": "n", "every": True, "private_names": ["x", "n"]}),
    "r_in": ("regex", ("(?P<x>b)(?P<y>c)",), {"name": "n", "every": True, "ignore_names": ["x"]}),
    "r_named": ("regex", ("(?P<x>a)(b)",), {"name": "n", "children": True}),
    "r_unnamed": ("regex", ("(a)(b)?", "c"), {"name": "n", "children": True}),
    "r_mixed": ("regex", ("(?P<x>a)(b)", "(b)(?P<y>c)?"), {"name": "n", "every": True, "private_names": ["y"], "private_parent": True}),
    "r_hidden": ("regex", ("(b)(?P<x>c)",), {"name": "n", "children": True, "private_names": ["n"]}),
    "r_same": ("regex", ("(?P<n>a)(b)",), {"name": "n", "children": True, "value": {"n": "VN"}}),
    "r_without": ("regex", ("(?P<x>a)(?P<y>b)(c)?",), {"name": "n", "children": True, "ignore_names": ["x", "y"]}),
    "r_mark": ("regex", ("(?P<u>a)",), {"marker": True, "every": True, "name": "k"}),
    "r_props": ("regex", ("(?P<x>a)(?P<y>b)",), {"children": True, "properties": {"x": ["a"], "y": ["b", "B"]}}),
    "f": ("functional", ("a",), {}),
    "f_n": ("functional", ("b",), {"name": "f"}),
    "f_nv": ("functional", ("b",), {"name": "f", "value": "VF"}),
    "f_props": ("functional", ("c",), {"properties": {"f": [None]}, "name": "f"}),
    "f_every": ("functional", ("c",), {"name": "f", "every": True, "private_parent": True, "tags": ["t"]}),
    "f_pn": ("functional", ("a",), {"name": "f", "private_names": ["f"]}),
}

def nested(b):
    chain = b.chain()
    chain.regex("(?P<cb>b)")
    chain.chain(name="cm").functional(spans("c"), name="cf").close()


def deep(b):
    """Chains in chains in a chain."""
    outer = b.chain()
    outer.string("a")
    inner = outer.chain(name="d1")
    inner.string("b")
    sub = inner.chain(properties={"d2": [1]})
    sub.regex("(?P<dx>c)?b")
    sub.string("a", name="dd")
    sub.chain(name="d3").string("c").close()


# names the configuration mentions for public matches, and the declared values of some
CHAINS = {
    "c": (lambda b: b.chain(name="cn").string("a", name="ca").regex("(?P<cb>b)", name="cc").close(), {"cn", "ca", "cb", "cc"}),
    "c_nested": (nested, {"cb", "cm", "cf"}),
    "c_deep": (deep, {"d1", "d2", "dx", "dd", "d3"}),
    "c_props": (lambda b: b.chain(properties={"cp": [None]}).string("a", properties={"cq": [1]}).close(), {"cp", "cq"}),
    "c_hidden": (lambda b: b.chain(private=True, name="cn").string("a", name="ch").hidden().close(), {"cn", "ch"}),
}
TEXTS = ["", "a", "ab", "abc", "bc", "cab"]


class PropRule(Rule):
    properties = {"rp": [1, 2], "n": ["from rule"]}

    def when(self, matches, context):
        return False


def add(bulk, label, **extra):
    if label in CHAINS:
        CHAINS[label][0](bulk)
        return
    kind, patterns, options = MENU[label]
    if kind == "functional":
        patterns = [spans(p) for p in patterns]
    getattr(bulk, kind)(*patterns, **options, **extra)


def emits(label):
    """Names a pattern can give: its name, its groups, its properties, its parts."""
    if label in CHAINS:
        return CHAINS[label][1]
    kind, patterns, options = MENU[label]
    names = set(options.get("properties") or ())
    if options.get("name"):
        names.add(options["name"])
    if kind == "regex":
        import re

        for p in patterns:
            names |= set(re.compile(p).groupindex)
    return names


def own_value(label):
    """name -> declared values."""
    _, _, options = MENU[label]
    if "properties" in options:
        return {n: list(v) for n, v in options["properties"].items()}
    value = options.get("value")
    if isinstance(value, dict):
        return {n: [v] for n, v in value.items() if n in emits(label)}
    return {options["name"]: [value]} if value and options.get("name") else {}


def run(ctx, case):
    parent_labels, child_labels, flag, rules, context, *between = case
    disabled = {"no": False, "yes": True, "if_x": lambda c: bool(c.get("x"))}[flag]
    off = {"no": False, "yes": True, "if_x": bool(context and context.get("x"))}[flag]
    parent, child = Rebulk(), Rebulk(disabled=disabled)
    for label in parent_labels:
        add(parent, label)
    for label in child_labels:
        add(child, label)
    if rules:
        (parent if rules == "parent" else child).rules(PropRule)
    parent.rebulk(Rebulk().rebulk(child) if between else child)
    what = lambda: f"parent {parent_labels} child {child_labels} disabled {flag} rules {rules} context {context}"
    for _ in range(2):
        described = introspect(parent, context)
        found = described.properties
        ctx.ran()
        labels = [l for l in parent_labels + (() if off else child_labels) if l in MENU]
        for text in TEXTS:
            for m in parent.matches(text, context):
                if m.name and not m.private and not m.marker and not (m.pattern and type(m.initiator.pattern).__name__ == "Chain"):
                    ctx.ok(m.name in found, lambda: what() + f": match {m!r} of {text!r} is not introspected, properties are {dict(found)}")
        for label in labels:
            if MENU[label][2].get("private") or MENU[label][2].get("marker"):
                continue
            for name, values in own_value(label).items():
                for v in values:
                    ctx.ok(v in found.get(name, []), lambda: what() + f": declared value {v!r} of {name!r} is not introspected, properties are {dict(found)}")
            kind, patterns, options = MENU[label]
            if kind == "string" and options.get("name") and not own_value(label):
                for p in patterns:
                    ctx.ok(p in found.get(options["name"], []), lambda: what() + f": {p!r} is not introspected")
        if rules == "parent" or rules == "child" and not off:
            ctx.ok(all(v in found.get(n, []) for n, vs in PropRule.properties.items() for v in vs), lambda: what() + ": properties of the rule")
        known = set().union({None, "__children__", "__parent__"}, *[emits(l) for l in labels], *[set(MENU[l][2]["value"]) for l in labels if isinstance(MENU[l][2].get("value"), dict)])
        if rules == "parent" or rules == "child" and not off:
            known |= set(PropRule.properties)
        ctx.ok(set(found) <= known | set().union(*[CHAINS[l][1] for l in parent_labels + child_labels if l in CHAINS]), lambda: what() + f": introspected {set(found)}, enabled are {known}")
        ctx.eq(dict(described.properties), dict(found), lambda: what() + ": asked again")
        for d in described.patterns:
            ctx.eq(dict(d.properties), dict(PatternDescription(d.pattern).properties), lambda: what() + f": properties of {d.pattern}")
        for values in found.values():  # the result is the caller's
            values.append("mine")
        ctx.ok(all("mine" not in v for v in introspect(parent, context).properties.values()), lambda: what() + ": introspecting again")
    for label in labels:
        props = MENU[label][2].get("properties")
        ctx.ok(not props or all("mine" not in v for v in props.values()), lambda: what() + ": properties given by the caller")
    ctx.state((parent_labels, child_labels, off))


def cases(tier):
    labels = list(MENU)
    both = labels + list(CHAINS)
    for one in both:
        yield (one,), (), "no", None, None
        for two in both:
            yield (one, two), (), "no", "parent", {}
            for flag in ("no", "yes", "if_x"):
                for context in (None, {"x": 1}):
                    yield (one,), (two,), flag, None if flag == "no" else "child", context
                    if context:
                        yield (one,), (two,), flag, None if flag == "no" else "child", context, "between"
    for combo in itertools.combinations(labels, 3) if tier != "thorough" else itertools.product(labels, repeat=3):
        yield combo[:2], combo[2:], "if_x", None, {"x": 0}


def keys_run(ctx, case):
    parent_labels, child_labels, flag, names, where, allowed, off = case
    parent, child = Rebulk(), Rebulk(disabled=flag is True)
    keys = [Key(n, str) for n in names]
    for bulk, here in ((parent, "parent"), (child, "child")):
        declared = keys if where == here else keys[::2] if where == "both" and here == "parent" else keys[1:] if where == "both" else []
        bulk.declare_keys(*declared)
    for label in parent_labels:
        add(parent, label, **({"disabled": True} if off and label in MENU else {}))
    for label in child_labels:
        add(child, label)
    parent.rebulk(Rebulk().rebulk(child) if flag == "between" else child)
    produced = set().union(*[emits(l) for l in parent_labels + child_labels])
    give = allowed if isinstance(allowed, str) else list(allowed)
    permitted = {allowed} if isinstance(allowed, str) else set(allowed)
    want = sorted(n for n in names if n not in produced and n not in permitted)
    for _ in range(2):
        got = parent.check_keys(allowed_unused=give) if allowed else parent.check_keys()
        ctx.ran()
        ctx.eq(got, want, lambda: f"parent {parent_labels} child {child_labels} disabled {flag} keys {names} declared on {where}, allowed {allowed}")
        got.append("mine")
    if give and not isinstance(give, str):
        ctx.eq(parent.check_keys(allowed_unused=iter(give)), want, "allowed_unused as an iterator")
    ctx.state((parent_labels, child_labels, want))


def keys_cases(tier):
    labels = list(MENU) + list(CHAINS)
    names = ("n", "z", "x", "zz", "cb", "f", "ca", "k", "q", "cq", "cm", "w", "dd", "dx", "d1", "d2", "d3")
    allows = ((), "zz", ("x", "zz"), "n")
    for one in labels:
        for two in [None] + labels:
            for flag in (False, True, "between"):
                for where in ("parent", "child", "both"):
                    for allowed in allows:
                        yield (one,), (two,) if two else (), flag, names, where, allowed, False
            yield ((one, two) if two else (one,)), (), False, names[::2], "parent", (), True
    for k in (0, 1, 2):
        for some in itertools.permutations(("n", "y", "aa"), k):
            for one in labels:
                yield (one,), (), False, some, "parent", (), False


def families():
    return [
        Family("introspect", cases, run, "every pair of 46 patterns on parent and child (each disabled flag; also a child of its child) and triples; every public named match of 6 texts must be introspected"),
        Family("check_keys", keys_cases, keys_run, "every pair of patterns x declared keys on parent, child (or a child of its child) or both x allowed names"),
        sizes("C21"),
    ]
