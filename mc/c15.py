"""C15: typed keys - conversions, lookups and the declared-key check, for every combination of where converters come from."""
from __future__ import annotations

import itertools

from rebulk import Key, Rebulk, debug
from rebulk.rules import RenameMatch, Rule

from .core import Family
from .sizes import sizes

ASSUMPTIONS = [
    "converters are functions tagging their input, value types are subclasses of str and int",
    "a formatter given together with a single key stands in for that key's converter; entries for __parent__/__children__ are not combined with keys; parts of chain(children=True) have no formatter of their own",
]


class A(str):
    pass


class B(A):
    pass


class OwnKey(Key):
    """A key of a class of its own."""


def tag(label):
    return lambda s: (label, s)


FORMATTERS = {"F": tag("F"), "Fx": {"x": tag("Fx")}, "Fn": {"n": tag("Fn")}, "F0": {None: tag("F0")}, "Fx0": {"x": tag("Fx"), None: tag("F0")}, "Fm": {"m": tag("Fm")}}
DEFAULTS = {"D": tag("D"), "Dx": {"x": tag("Dx")}, "Dn": {"n": tag("Dn"), "x": tag("Dx")}, "D0": {None: tag("D0")}}
TYPED = {"T": tag("T"), "Tn": {"n": tag("Tn")}, "Tx": {"x": tag("Tx"), "y": tag("Ty")}}
KEYS = {"n": Key("n", A), "x": OwnKey("x", A), "nf": OwnKey("n", A, formatter=tag("Kn")), "xf": Key("x", B, formatter=tag("Kx")), "y": Key("y", B)}
DECL = {"n": Key("n", B), "x": Key("x", B), "nf": Key("n", int, formatter=tag("dn")), "xf": OwnKey("x", int, formatter=tag("dx")), "yf": Key("y", int, formatter=tag("dy")), "m": Key("m", A)}
LATER = Key("later", int)
KEY_ARGS = [None, "n", "x", "nf", "xf", (), ("x",), ("nf",), ("xf", "nf"), ("x", "xf"), ("y", "n", "xf")]
DECLS = [(), ("n",), ("xf",), ("nf", "x"), ("xf", "x"), ("nf", "xf", "yf"), ("m", "n")]

PATTERNS = {"regex": r"(?P<x>\d)(?P<y>\d)", "string": "12", "functional": lambda s: (s.index("12"), s.index("12") + 2)}
TEXT = "a12b"
SPANS = {None: (1, 3), "x": (1, 2), "y": (2, 3)}


def shown(value):
    return value if isinstance(value, tuple) else (type(value).__name__, str(value))


def merged(general, specific):
    """The effective formatter option: dicts are merged, the more specific entry wins."""
    if specific is None:
        return general
    if isinstance(specific, dict) and isinstance(general, dict):
        return {**general, **specific}
    return specific


def expected_converter(name, own, keys, typed, default, declared):
    """The converter of matches called name, from the documentation; TypeError when keys and a single formatter are combined."""
    option = FORMATTERS.get(own)
    if isinstance(keys, tuple) and keys:
        if callable(option):
            raise TypeError
        passed = {}
        for k in keys:
            passed.setdefault(KEYS[k].name, KEYS[k].converter)
        option = {**passed, **(option or {})}
    elif isinstance(keys, str) and option is None:
        option = KEYS[keys].converter
    option = merged(DEFAULTS.get(default), merged(TYPED.get(typed), option))
    table = option if isinstance(option, dict) else {}
    if name is not None and name in table:
        return table[name]
    if callable(option):
        return option
    for d in reversed(declared):
        if DECL[d].name == name:
            return DECL[d].converter
    return table.get(None)  # the entry for any other name


def convert(fn, text):
    return shown(fn(text)) if fn else ("str", text)


def key_arg(keys):
    return None if keys is None else KEYS[keys] if isinstance(keys, str) else [KEYS[k] for k in keys]


def run(ctx, case):
    kind, own, keys, typed, default, declared, name, late = case
    bulk = Rebulk(default_rules=False)
    if default:
        bulk.defaults(formatter=DEFAULTS[default])
    if typed:
        getattr(bulk, f"{kind}_defaults")(formatter=TYPED[typed])
    if not late:
        for d in declared:
            bulk.declare_keys(DECL[d])
    options = {}
    if own:
        options["formatter"] = FORMATTERS[own]
    if name:
        options["name"] = name
    if kind == "regex":
        options["every"] = True
    key = key_arg(keys)
    build = lambda: getattr(bulk, kind)(PATTERNS[kind], key=key, **options)
    want_name = name or (KEYS[keys].name if isinstance(keys, str) else None)
    names = [want_name] + (["x", "y"] if kind == "regex" else [])
    applied = () if late else declared
    try:
        want = [(n, convert(expected_converter(n, own, keys, typed, default, applied), TEXT[slice(*SPANS[n if i else None])])) for i, n in enumerate(names)]
    except TypeError:
        ctx.raises(TypeError, build, f"{case}")
        return
    before = {id(d): dict(d) for group in (FORMATTERS, DEFAULTS, TYPED) for d in group.values() if isinstance(d, dict)}
    build()
    extra = {}
    if late:
        child = Rebulk(default_rules=False)
        bulk.rebulk(child).matches(TEXT)
        bulk.declare_keys(*[DECL[d] for d in declared]).matches(TEXT)
        child.declare_keys(DECL["yf"], LATER)
        extra = {k.name: k for k in (DECL["yf"], LATER)}
    for turn in range(2):
        got = bulk.matches(TEXT)
        ctx.ran()
        ctx.eq([(m.name, shown(m.value)) for m in got], want, lambda: f"{case}: call {turn}")
        for k in list(KEYS.values()) + list(DECL.values()):
            values = [v for n, v in want if n == k.name]
            ctx.eq([shown(v) for v in got.all(k)], values, lambda: f"{case}: all({k})")
            ctx.eq(shown(got[k]) if got[k] is not None else None, values[0] if values else None, lambda: f"{case}: matches[{k}]")
        ctx.eq(dict(got.declared_keys), {**extra, **{DECL[d].name: DECL[d] for d in declared}}, lambda: f"{case}: declared_keys")
        got.declared_keys.clear()  # owned by the result
    for group in (FORMATTERS, DEFAULTS, TYPED):
        for d in group.values():
            if isinstance(d, dict):
                ctx.eq(list(d), list(before[id(d)]), "a formatter dict of the caller")
    ctx.state((kind, want))


def cases(tier):
    for kind in PATTERNS:
        for own in [None, *FORMATTERS]:
            for keys in KEY_ARGS:
                for typed in [None, *TYPED]:
                    for default in [None, *DEFAULTS]:
                        for declared in DECLS:
                            for name in (None, "n", "m"):
                                for late in (False, True):
                                    if late and (not declared or own or typed):
                                        continue
                                    yield kind, own, keys, typed, default, declared, name, late


# -- chains -----------------------------------------------------------------------------------
def chain_run(ctx, case):
    part_own, part_keys, before, after, inside, children, nested, chain_own = case
    bulk = Rebulk(default_rules=False)
    bulk.declare_keys(*[DECL[d] for d in before])
    options = dict(children=True) if children else {}
    if chain_own:
        options["formatter"] = FORMATTERS[chain_own]
    chain = bulk.chain(name="n", **options)
    if nested:
        chain = chain.chain(name="n", **({"children": True} if children else {}))
    if after:
        bulk.declare_keys(*[DECL[d] for d in after])
    if inside:
        chain.declare_keys(*[DECL[d] for d in inside])
    part_options = {"formatter": FORMATTERS[part_own]} if part_own else {}
    build = lambda: chain.string("a").regex(PATTERNS["regex"], children=True, key=key_arg(part_keys), **part_options).close()
    try:
        part = {n: expected_converter(n, part_own, part_keys, None, None, before + inside) for n in "xy"}
    except TypeError:
        ctx.raises(TypeError, build, f"{case}")
        return
    build()
    got = bulk.matches(TEXT)
    ctx.ran()
    whole = {n: expected_converter(n, chain_own, None, None, None, before) for n in "nxy"}
    if not children:
        ctx.eq([(m.name, m.span, shown(m.value)) for m in got], [("n", (0, 3), convert(whole["n"], "a12"))], f"{case}: chain match")
        inner = [c for m in got for c in m.children]
        want = {n: convert(part[n], TEXT[slice(*SPANS[n])]) for n in "xy"}
    else:
        inner = list(got)
        want = {n: convert(whole[n], TEXT[slice(*SPANS[n])]) for n in "xy"}
    if nested and not children:
        return
    ctx.eq({c.name: shown(c.value) for c in inner if c.name in ("x", "y")}, want, f"{case}: parts")
    # the keys of a chain builder are not those of its parent
    ctx.eq(set(got.declared_keys), {DECL[d].name for d in before + after}, "declared keys of the builder")
    ctx.state((case[5:], want))


def chain_cases(tier):
    for part_own in [None, *FORMATTERS]:
        for part_keys in KEY_ARGS:
            if not isinstance(part_keys, (tuple, type(None))):
                continue
            for before in DECLS[:4] + DECLS[5:6]:
                for after in ((), ("xf", "nf")):
                    for inside in ((), ("x",), ("yf",)):
                        for children in (False, True):
                            for nested in (False, True):
                                for chain_own in (None, "F", "Fx", "Fn"):
                                    if children and (part_own or part_keys or inside or (chain_own and nested)):
                                        continue  # outside the property
                                    yield part_own, part_keys, before, after, inside, children, nested, chain_own


# -- the declared-key check ---------------------------------------------------------------------
TYPES = {"int": int, "float": float, "str": str, "bytes": bytes, "A": A, "B": B, "object": object, "bool": bool}
MAKERS = {"int": lambda s: 1, "float": lambda s: 2.5, "bytes": lambda s: b"1", "dict": lambda s: {1: 1}, "bool": lambda s: True, "str": str, "A": A, "B": B, "none": lambda s: None, "zero": lambda s: 0, "empty": lambda s: "", "list": lambda s: [1]}
VALUES = {"int": 1, "float": 2.5, "bytes": b"1", "dict": {1: 1}, "bool": True, "str": "1", "A": A("1"), "B": B("1"), "none": None, "zero": 0, "empty": "", "list": [1]}


class Rename(Rule):
    priority = 10
    consequence = RenameMatch("x")

    def when(self, matches, context):
        return matches.named("other")


def check_run(ctx, case):
    where, typ, items, parent_disabled, child_disabled, extra, *converted = case
    key = Key("x", TYPES[typ], formatter=lambda s: ("converted", s)) if converted else Key("x", TYPES[typ])
    child, parent = Rebulk(disabled=child_disabled), Rebulk(disabled=parent_disabled)
    holder = parent if where in ("parent", "both") else child
    holder.declare_keys(key)
    if where == "both":
        child.declare_keys(Key("x", list))  # the parent's wins
    bulk = Rebulk(disabled=False)
    want = False
    active = not parent_disabled
    declared = active and (where in ("parent", "both") or not child_disabled)
    for i, (maker, how, on) in enumerate(items):
        target = parent if on == "parent" else child
        runs = active and (target is parent or not child_disabled)
        options = dict(name="x", formatter=MAKERS[maker])
        public, literal = True, False
        if how == "literal":
            options["value"] = 3.5
            literal = True
        elif how == "private":
            options["private"] = True
            public = False
        elif how == "other":
            options["name"] = "other"
        elif how == "marker":
            options["marker"] = True
        elif how == "child":
            options.update(children=True, name="n")
        elif how == "hidden_parent":  # public children, private parent of the declared name
            options.update(children=True, private_parent=True)
        pattern = f"({'abc'[i]})" if how == "hidden_parent" else f"(?P<x>{'abc'[i]})" if how == "child" else "abc"[i]
        target.regex(pattern, **options)
        if declared and runs and public and not literal and how not in ("other", "marker") and VALUES[maker] is not None:
            want = want or not isinstance(VALUES[maker], TYPES[typ])
    parent.rebulk(child)
    if extra == "rename":
        parent.rules(Rename)
    debug.CHECK_DECLARED_KEYS = True
    try:
        call = lambda: parent.matches("abc")
        if want:
            ctx.raises(TypeError, call, f"{case}")
        else:
            call()
        ctx.ran()
        debug.CHECK_DECLARED_KEYS = False
        got = parent.matches("abc")
        wanted = {}
        if active:
            wanted = {"x": key} if where in ("parent", "both") or not child_disabled else {}
        ctx.eq(dict(got.declared_keys), wanted, f"{case}: declared keys")
        expect = [VALUES[m] if how != "literal" else 3.5 for m, how, on in items if on == "parent" or not child_disabled] if active else []
        if all(how in ("plain", "literal") for _, how, _ in items):
            order = [i for i, it in enumerate(items) if it[2] == "parent"] + [i for i, it in enumerate(items) if it[2] == "child"]
            expect = [3.5 if items[i][1] == "literal" else MAKERS[items[i][0]]("abc"[i]) for i in order if active and (items[i][2] == "parent" or not child_disabled)]
            ctx.eq(got.all(key), expect, f"{case}: all")
            ctx.eq(got[key], expect[0] if expect else None, f"{case}: key access")
    finally:
        debug.CHECK_DECLARED_KEYS = False
    ctx.state((case[:2], want))


def check_cases(tier):
    kinds = ("plain", "literal", "private", "other", "marker", "child", "hidden_parent")
    single = [(m, how, on) for m in MAKERS for how in kinds for on in ("parent", "child")]
    for where in ("parent", "child", "both"):
        for typ in TYPES:
            for parent_disabled, child_disabled in itertools.product((False, True), repeat=2):
                for one in single:
                    yield where, typ, (one,), parent_disabled, child_disabled, "rename" if one[1] == "other" else None
    makers = list(MAKERS) if tier == "thorough" else ["int", "float", "bool", "none", "A"]
    some = [(m, how, on) for m in makers for how in ("plain", "literal", "private", "child") for on in ("parent", "child")]
    for where in ("parent", "child", "both"):
        for typ in TYPES if tier == "thorough" else ("int", "float", "A", "object"):
            for items in itertools.product(some, repeat=2):
                for child_disabled in (False, True):
                    yield where, typ, items, False, child_disabled, None
                    # a key with a converter, which the formatters of the patterns stand before
                    if all(how in ("plain", "literal", "private") for _, how, _ in items):
                        yield where, typ, items, False, child_disabled, None, "converted"


def families():
    return [
        Family("converters", cases, run, "3 pattern kinds x 7 formatter options x 11 key arguments x 4 type defaults x 5 defaults x 7 declarations x 3 names x declared before/after"),
        Family("chains", chain_cases, chain_run, "chain parts (also nested, children=True): part formatters x keys x declarations before, after and inside the chain x chain formatters"),
        Family("check", check_cases, check_run, "declared-key check: where declared x 8 types x 1-2 matches (12 values x 7 ways to produce them) x disabled flags"),
        sizes("C15"),
    ]
