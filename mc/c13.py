"""C13: chains - every small chain on every small text, against a reference scanner."""
from __future__ import annotations

import itertools
import re

from rebulk import Rebulk

from .core import Family
from .sizes import sizes

ASSUMPTIONS = [
    "the first part is mandatory; each part has one pattern, without validators of its own; texts over {a, b, -}",
    "nested chains (one repetition) without hidden parts inside",
]

FUNCS = {
    "fa": lambda s: [(m.start(), m.end()) for m in re.finditer("a", s)],
    "fnone": lambda s: None,
    "fb1": lambda s: (s.index("b"), s.index("b") + 1) if "b" in s else None,
}
REPEATERS = {None: (1, 1), "1": (1, 1), 2: (2, 2), "?": (0, 1), "*": (0, None), "+": (1, None), "{1,2}": (1, 2), "{2,}": (2, None), "{,2}": (0, 2), "{0,3}": (0, 3), "{2,3}": (2, 3), "{2}": (2, 2), "{ 1 , }": (1, None), 0: (0, 0), "{0}": (0, 0), "3": (3, 3)}


def scan(part, s):
    """Occurrences of a part in s: (start, end, [(start, end, name)])."""
    kind, pattern = part["kind"], part["pattern"]
    if kind == "string":
        out, at = [], s.find(pattern)
        while at >= 0:
            out.append((at, at + len(pattern), []))
            at = s.find(pattern, at + len(pattern))
        return out
    if kind == "regex":
        rx = re.compile(pattern)
        names = {v: k for k, v in rx.groupindex.items()}
        return [(m.start(), m.end(), [(*m.span(g), names.get(g, part.get("name"))) for g in range(1, rx.groups + 1) if m.end(g) > m.start(g)]) for m in rx.finditer(s) if m.end() > m.start()]
    if kind == "chain":
        return [(c["start"], c["end"], [(a, b, n, p) for a, b, n, p in c["children"]]) for c in reference(pattern, s)]
    found = FUNCS[pattern](s)
    return [(a, b, []) for a, b in ([found] if isinstance(found, tuple) else found or [])]


class Seen:
    """What a chain_breaker may look at."""

    def __init__(self, rows, text):
        self.rows, self.text = rows, text

    def __len__(self):
        return len(self.rows)

    def last(self):
        return self.text[self.rows[-1][0]:self.rows[-1][1]]


def reference(parts, text, breaker=None, validator=None, name=None):
    out, pos = [], 0
    while pos < len(text):
        cur, visible, failed, retry = pos, [], False, None
        for i, part in enumerate(parts):
            low, high = REPEATERS[part.get("repeater")]
            occ = scan(part, text[cur:])
            if i == 0:
                if not occ:
                    return out
                retry = cur + occ[0][1]
            reps = []
            if occ and (i == 0 or occ[0][0] == 0):
                reps = occ[:1]
                for o in occ[1:]:
                    if o[0] != reps[-1][1]:
                        break
                    reps.append(o)
                reps = reps if high is None else reps[:high]
            if len(reps) < low:
                failed = True
                break
            for r, (a, b, groups) in enumerate(reps):
                row = (a + cur, b + cur, i, r, [(g[0] + cur, g[1] + cur, g[2]) + tuple(type(p)((p[0] + cur, p[1] + cur)) for p in g[3:]) for g in groups])
                row = returned(part, row, text)
                if row and not part.get("hidden") and not (breaker and breaker(Seen([v[:2] for v in visible] + [row[:2]], text))):
                    visible.append(row)
            if reps:
                cur += reps[-1][1]
        if failed:
            pos = retry
            continue
        pos = cur
        chain = shape(parts, visible, name) if visible else None
        if chain and validator and not validator(RefChain(chain, text)):
            last, chain = visible[-1][2], None
            while visible and visible[-1][2] == last:
                visible = visible[:-1]
                if visible and validator(RefChain(shape(parts, visible, name), text)):
                    chain = shape(parts, visible, name)
                    break
        if chain:
            out.append(chain)
    return out


def returned(part, row, text):
    """What a part returns of a repetition, None for nothing."""
    mode = part.get("mode")
    a, b, i, r, groups = row
    if mode == "valid" and text[a:b] == "a":
        return None
    if mode in ("children", "ignored"):
        groups = [g for g in groups if mode == "children" or g[2] != "x"]
        return (min(g[0] for g in groups), max(g[1] for g in groups), i, r, groups) if groups else None
    return row


class ChainSpan(tuple):
    """Span of the parent of a part match."""


def shape(parts, visible, name):
    children, groups_of = [], []
    start, end = min(v[0] for v in visible), max(v[1] for v in visible)
    for a, b, i, _, groups in visible:
        mode = parts[i].get("mode")
        for g in groups:
            children.append((g[0], g[1], g[2], ChainSpan((start, end)) if mode in ("children", "ignored") else g[3] if len(g) > 3 else (a, b)))
        if mode not in ("children", "ignored"):
            children.append((a, b, parts[i].get("name"), ChainSpan((start, end))))
        groups_of.append(len(groups))
    return {"start": start, "end": end, "name": name, "children": children, "groups": groups_of, "parts": [v[2] for v in visible]}


class RefChain:
    def __init__(self, chain, text):
        self.start, self.end, self.n, self.value = chain["start"], chain["end"], len(chain["children"]), text[chain["start"]:chain["end"]]


class RealChain(RefChain):
    def __init__(self, m):
        self.start, self.end, self.n, self.value = m.start, m.end, len(m.children), m.value


class RealSeen:
    def __init__(self, ms):
        self.ms = ms

    def __len__(self):
        return len(self.ms)

    def last(self):
        return self.ms[-1].value


BREAKERS = {"count2": lambda s: len(s) > 2, "lastb": lambda s: s.last() == "b", "first": lambda s: len(s) == 1, "lasta2": lambda s: s.last() == "a" and len(s) > 1}
VALIDATORS = {
    "never": lambda c: False, "len3": lambda c: c.end - c.start != 3, "even": lambda c: c.end % 2 == 0, "short": lambda c: c.end - c.start <= 2, "n2": lambda c: c.n <= 2,
    "enda": lambda c: c.value.endswith("a"), "start0": lambda c: c.start == 0,
}


def not_a(m):
    return m.raw != "a"


# options of a part: what it returns of each repetition
PART_MODES = {
    None: {}, "children": {"children": True}, "every": {"every": True}, "private_parent": {"children": True, "private_parent": True},
    "private_children": {"private_children": True}, "ignored": {"children": True, "ignore_names": ["x"]}, "valid": {"validator": {"__parent__": not_a}},
}


def add(builder, parts):
    for part in parts:
        options = {"name": part["name"]} if part.get("name") else {}
        options.update(PART_MODES[part.get("mode")])
        if part["kind"] == "chain":
            add(builder.chain(**options), part["pattern"])
            continue
        pattern = FUNCS[part["pattern"]] if part["kind"] == "functional" else part["pattern"]
        p = getattr(builder, part["kind"])(pattern, **options)
        if part.get("repeater") is not None:
            p.repeater(part["repeater"])
        if part.get("hidden"):
            p.hidden()


def build(parts, breaker=None, validator=None, **options):
    if breaker:
        options["chain_breaker"] = lambda ms: BREAKERS[breaker](RealSeen(ms))
    if validator:
        options["validator"] = {"__parent__": lambda m: VALIDATORS[validator](RealChain(m))}
    bulk = Rebulk(default_rules=False)
    add(bulk.chain(**options), parts)
    return bulk


def texts(alphabet, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def decode(parts):
    keys = ("kind", "pattern", "repeater", "hidden", "name", "mode")
    return [dict((k, decode(v) if k == "pattern" and p[0] == "chain" else v) for k, v in zip(keys, p)) for p in parts]


def run(ctx, case):
    coded, (alphabet, n), breaker, validator, mode = case
    parts = decode(coded)
    options = {"name": "chain"}
    if mode == "markers":
        return markers_run(ctx, coded, parts, alphabet, n, breaker, validator)
    if mode:
        options[mode] = True
    bulk = build(parts, breaker, validator, **options)
    total = []
    for text in texts(alphabet, n):
        want = reference(parts, text, BREAKERS.get(breaker), VALIDATORS.get(validator), "chain")
        rows = []
        for c in want:
            if mode != "children":
                rows.append((c["start"], c["end"], "chain", None, [ch[:3] for ch in c["children"]]))
            if mode:
                rows += [(a, b, nm, p, None) for a, b, nm, p in c["children"]]
        got = bulk.matches(text)
        ctx.ran()
        what = lambda: f"chain {coded} breaker={breaker} validator={validator} {mode or ''} on {text!r}"
        ctx.eq([(m.start, m.end, m.name, m.parent.span if m.parent else None, [(c.start, c.end, c.name) for c in m.children] if m.parent is None else None) for m in got], rows, what)
        for m in got:
            for x in [m] + list(m.children):
                ctx.ok(x.value == x.raw == text[x.start:x.end] and x.input_string == text, lambda: what() + f": {x}")
            for c in m.children:
                ctx.ok(c.initiator is m if m.parent is None else True, lambda: what() + f": {c} does not lead to {m}")
        total.append(rows)
    ctx.state(total)


def markers_run(ctx, coded, parts, alphabet, n, breaker, validator):
    """A chain and parts that are markers find what they would find otherwise."""
    bulk, total = Rebulk(default_rules=False), []
    control = {}
    if breaker:
        control["chain_breaker"] = lambda ms: BREAKERS[breaker](RealSeen(ms))
    if validator:
        control["validator"] = {"__parent__": lambda m: VALIDATORS[validator](RealChain(m))}
    bulk.defaults(marker=True)
    add(bulk.chain(name="chain", **control), parts)
    for text in texts(alphabet, n):
        want = reference(parts, text, BREAKERS.get(breaker), VALIDATORS.get(validator), "chain")
        got = bulk.matches(text)
        ctx.ran()
        ctx.eq(
            (len(got), [(m.start, m.end, m.name, [(c.start, c.end, c.name) for c in m.children]) for m in got.markers]),
            (0, [(c["start"], c["end"], "chain", [ch[:3] for ch in c["children"]]) for c in want]),
            lambda: f"markers: chain {coded} breaker={breaker} validator={validator} on {text!r}",
        )
        total.append([(c["start"], c["end"]) for c in want])
    ctx.state(("markers", total))


SMALL = [("string", "a"), ("string", "b"), ("regex", "(a)"), ("regex", "(?P<x>a)(b)?")]
FULL = SMALL + [("string", "ab"), ("string", "-"), ("regex", "a+"), ("regex", "a|b"), ("regex", "(?:a(?P<y>b)|-)"), ("functional", "fa"), ("functional", "fb1"), ("functional", "fnone")]
MANDATORY = [None, "+", "{1,2}", 2]
ALL = [None, "?", "*", "+", "{1,2}", "{2,3}"]


def two_cases(tier):
    n = 7 if tier == "thorough" else 5
    names = (None, "n") if tier == "thorough" else (None,)
    for first in itertools.product(FULL, MANDATORY):
        yield ((*first[0], first[1]),), ("ab-", n), None, None, None
        for second in itertools.product(FULL, ALL):
            for name in names:
                yield ((*first[0], first[1], False, name), (*second[0], second[1])), ("ab-", n), None, None, None
    for r in REPEATERS:
        for kind in FULL:
            yield (("string", "a", None), (*kind, r)), ("ab", n + 1), None, None, "every"
            if REPEATERS[r][0]:
                yield ((*kind, r, False, "k"), ("string", "b", "?", False, "b")), ("ab", n + 1), None, None, "children"


def three_cases(tier):
    deep = tier == "thorough"
    kinds = SMALL[:3] if not deep else FULL[:5]
    for a, b, c in itertools.product(kinds, repeat=3):
        for ra in (None, "+", 2):
            for rb, rc in itertools.product((None, "?", "*", "{1,2}") if not deep else ALL, repeat=2):
                yield ((*a, ra), (*b, rb), (*c, rc)), ("ab", 7 if deep else 6), None, None, None


def hidden_cases(tier):
    kinds = [("string", "a"), ("string", "b"), ("regex", "(?P<x>a)(b)?"), ("string", "-")]
    n = 6 if tier == "thorough" else 5
    for a, b in itertools.product(kinds, repeat=2):
        for ra, rb in itertools.product((None, "+"), (None, "?", "*", "+")):
            for ha, hb in itertools.product((False, True), repeat=2):
                yield ((*a, ra, ha), (*b, rb, hb)), ("ab-", n), None, None, "every"
    for a, b, c in itertools.product(kinds[:3] if tier != "thorough" else kinds, repeat=3):
        for rb in (None, "?", "+"):
            for hidden in itertools.product((False, True), repeat=3):
                yield ((*a, None, hidden[0]), (*b, rb, hidden[1]), (*c, "?", hidden[2])), ("ab", n), None, None, None


def spaced_cases(tier):
    """Blanks are characters like any other."""
    kinds = [("string", "a"), ("string", " "), ("regex", "(?P<x>a)( )?"), ("regex", r"\s*b")]
    n = 7 if tier == "thorough" else 5
    for a, b in itertools.product(kinds, repeat=2):
        for ra, rb in itertools.product((None, "+", "{1,2}"), (None, "?", "*", "+")):
            for ha, hb in itertools.product((False, True), repeat=2):
                yield ((*a, ra, ha), (*b, rb, hb)), ("ab ", n), None, None, "every"
    for a, b, c in itertools.product(kinds, repeat=3):
        for ra, rb in itertools.product((None, "+"), repeat=2):
            for hidden in itertools.product((False, True), repeat=2):
                yield ((*a, ra, hidden[0]), (*b, rb, hidden[1]), (*c, "?" if hidden[0] else None)), ("ab ", n - 1), None, None, None


def control_cases(tier):
    kinds = [("string", "a"), ("string", "b"), ("regex", "(?P<x>a)(b)?"), ("regex", "a|b")]
    n = 7 if tier == "thorough" else 5
    for control in [(b, None) for b in BREAKERS] + [(None, v) for v in VALIDATORS] + [("count2", "even"), ("lastb", "len3"), ("lasta2", "enda")]:
        for a in kinds:
            for ra in (None, "+", "{1,2}"):
                yield ((*a, ra),), ("ab", n), *control, "every"
                for rb in ("?", "+"):
                    yield ((*a, ra, False, "k"), ("regex", "(a)b?", rb)), ("ab", n - 1), *control, "markers"
                for b in kinds:
                    for rb in (None, "?", "*", "+", "{1,2}"):
                        for hb in (False, True):
                            yield ((*a, ra, False, "k"), (*b, rb, hb)), ("ab", n), *control, "every"


def trim(m):
    """Leave dashes out of the match, its text remaining what was found."""
    m.raw_start, m.raw_end = m.start, m.end
    while len(m) > 1 and m.input_string[m.end - 1] == "-":
        m.end -= 1
    while len(m) > 1 and m.input_string[m.start] == "-":
        m.start += 1
    return m


def trimmed(a, b, text):
    while b - a > 1 and text[b - 1] == "-":
        b -= 1
    while b - a > 1 and text[a] == "-":
        a += 1
    return a, b


def raw_run(ctx, case):
    coded, processor, n, mode = case
    parts = decode(coded)
    bulk = Rebulk(default_rules=False)
    builder = bulk.chain(name="chain", **({mode: True} if mode else {}))
    builder.defaults(**{processor: trim})
    add(builder, parts)
    total = []
    for text in texts("ab-", n):
        want = []
        for c in reference(parts, text, None, None, "chain"):
            rows = [(*(trimmed(a, b, text) if name == "p" else (a, b)), name, text[a:b]) for a, b, name, _ in c["children"]]
            start, end = min(r[0] for r in rows if r[2] == "p"), max(r[1] for r in rows if r[2] == "p")
            want += [(start, end, "chain", text[start:end])] if mode != "children" else []
            want += rows if mode else []
        got = bulk.matches(text)
        ctx.ran()
        ctx.eq([(m.start, m.end, m.name, m.raw) for m in got], want, lambda: f"chain {coded} whose matches are trimmed by a {processor} {mode} on {text!r}")
        total.append(want)
    ctx.state(total)


def raw_cases(tier):
    n = 6 if tier == "thorough" else 5
    kinds = [("regex", "-?a"), ("regex", "b-*"), ("regex", "-(?P<x>a)-|b"), ("string", "a-"), ("regex", "--?|a")]
    for processor in ("pre_match_processor", "post_match_processor"):
        for mode in (None, "every", "children"):
            for a in kinds:
                for ra in (None, "+", "{1,2}"):
                    yield ((*a, ra, False, "p"),), processor, n, mode
                    for b in kinds:
                        for rb in (None, "?", "*"):
                            yield ((*a, ra, False, "p"), (*b, rb, False, "p")), processor, n, mode
                            if rb and ra != "{1,2}":
                                yield ((*a, ra, False, "p"), (*b, rb, False, "p"), ("string", "a", None, False, "p")), processor, n - 1, mode


def mode_cases(tier):
    """What each repetition of a part contributes when the part returns children, everything or only some of it."""
    n = 6 if tier == "thorough" else 5
    kinds = [("regex", p) for p in ("a(?P<x>b)?", "(?P<x>a)|(?P<y>b)", "(a)(?P<y>b)?", "a+(?P<x>b)|(?P<y>a)", "a|b")]
    for mode in PART_MODES:
        for a in kinds if mode else ():
            for name in (None, "p"):
                for r in ("+", "{1,2}", None, 2):
                    for validator in (None, *(v for v in VALIDATORS if v != "n2")) if name else (None,):
                        yield ((*a, r, False, name, mode),), ("ab", n + 1), None, validator, "every"
                    for other in (None, "children", "every"):
                        for rb in ("*", None):
                            yield ((*a, r, False, name, mode), ("regex", "(?P<z>b)|a", rb, False, None, other)), ("ab", n), None, None, "every"
                            yield (("regex", "(?P<z>b)a?", r, False, None, other), (*a, rb, False, name, mode)), ("ab", n), None, None, "every"
            for hidden in (False, True):
                yield (("string", "-"), (*a, "*", hidden, "p", mode), ("string", "-")), ("ab-", n), None, None, "children"


def nested_cases(tier):
    kinds = [("string", "a"), ("string", "b"), ("regex", "(?P<x>a)(b)?")]
    n = 6 if tier == "thorough" else 5
    inner = [((*k, r, False, nm), (*k2, r2)) for k in kinds for k2 in kinds for r in (None, "+") for r2 in (None, "?") for nm in (None, "in")]
    for sub in inner:
        for out in (("string", "a"), ("string", "-"), ("regex", "(?P<y>b)")):
            for r in (None, "+"):
                yield ((*out, r), ("chain", sub, None, False, "sub")), ("ab-", n), None, None, None
                yield (("chain", sub, None, False, None), (*out, r)), ("ab-", n), None, None, None
                yield ((*out, r), ("chain", sub, None, False, "sub"), ("string", "a", "?", False, "t")), ("ab-", n), None, None, "every"
    for sub in inner[::3]:
        yield (("string", "a", None), ("chain", (("string", "b", None), ("chain", sub, None, False, "deep")), None, False, "mid")), ("ab", n + 1), None, None, "every"


def nested_control_cases(tier):
    """A validator that fails drops a nested chain as a whole, a breaker rejects it as a whole."""
    n = 6 if tier == "thorough" else 5
    inner = [(("string", "b", r), (*k, r2)) for r in (None, "+") for k in (("string", "a"), ("regex", "(?P<x>a)(b)?")) for r2 in (None, "?")]
    for control in [(b, None) for b in BREAKERS] + [(None, v) for v in VALIDATORS] + [("count2", "even")]:
        for sub in inner:
            for r in (None, "+"):
                yield (("string", "a", r), ("chain", sub, None, False, "sub")), ("ab", n), *control, None
                yield (("chain", sub, None, False, "sub"), ("string", "a", r)), ("ab", n), *control, None
                yield (("string", "a", r), ("chain", sub, None, False, "sub"), ("string", "a", "?", False, "t")), ("ab", n), *control, "every"
        for sub in inner[::2]:
            yield (("string", "a", None), ("chain", (("string", "b", None), ("chain", sub, None, False, "deep")), None, False, "mid")), ("ab", n + 1), *control, "every"


# -- options on chains inside chains ----------------------------------------------------------------
INNER = {"none": {}, "children": {"children": True}, "every": {"every": True}, "private_parent": {"children": True, "private_parent": True}, "private_children": {"every": True, "private_children": True}}


def nested_run(ctx, case):
    """Children of the outer match: each match of the inner chain once, and its own match unless it only returns its children."""
    coded, (alphabet, n), mode, *control = case
    parts = decode(coded)
    bulk = Rebulk(default_rules=False)
    validator = VALIDATORS[control[0]] if control else None
    builder = bulk.chain(name="chain", **({"validator": {"__parent__": lambda m: validator(RealChain(m))}} if control else {}))
    for part in parts:
        if part["kind"] == "chain":
            add(builder.chain(name="sub", **INNER[mode]), part["pattern"])
        else:
            add(builder, [part])
    total = []
    for text in texts(alphabet, n):
        rows = []
        for c in reference(parts, text, None, validator, name="chain"):
            outer, children = (c["start"], c["end"]), []
            for i, number in zip(c["parts"], c["groups"]):
                own, c["children"] = c["children"][:number + 1], c["children"][number + 1:]
                sub = parts[i]["kind"] == "chain"
                for a, b, name, p in own[:-1]:
                    if sub and mode == "children" and isinstance(p, ChainSpan):
                        p = outer
                    children.append((a, b, name, p, sub and mode == "private_children"))
                if not (sub and mode == "children"):
                    children.append((*own[-1], sub and mode == "private_parent"))
            rows.append((*outer, children))
        got = bulk.matches(text)
        ctx.ran()
        ctx.eq([(m.start, m.end, [(x.start, x.end, x.name, x.parent.span, bool(x.private)) for x in m.children]) for m in got], rows, lambda: f"chain {coded} with inner chain {mode} and validator {control} on {text!r}")
        for m in got:
            for x in m.children:
                ctx.ok(x.value == x.raw == text[x.start:x.end] and x.input_string == text and x.initiator is m, lambda: f"{coded} {mode} {text!r}: {x}")
        total.append(rows)
    ctx.state(total)


def nested_option_cases(tier):
    kinds = [("string", "a"), ("string", "b"), ("regex", "(?P<x>a)(b)?")]
    n = 6 if tier == "thorough" else 4
    inner = [((*k, r, False, nm), (*k2, r2)) for k in kinds for k2 in kinds for r in (None, "+") for r2 in (None, "?") for nm in (None, "in")]
    for mode in INNER:
        for sub in inner:
            inside = ("chain", sub, None, False, "sub")
            for out in (("string", "a"), ("string", "-"), ("regex", "(?P<y>b)")):
                for r in (None, "+"):
                    yield ((*out, r), inside), ("ab-", n), mode
                    yield (inside, (*out, r)), ("ab-", n), mode
                yield ((*out, "+"), inside, ("string", "a", "?", False, "t")), ("ab", n + 1), mode
        for sub in inner[::4]:
            inside = ("chain", sub, None, False, "sub")
            for validator in ("never", "len3", "even", "short", "enda", "start0"):  # not those counting children
                for out in (("string", "a"), ("regex", "(?P<y>b)")):
                    yield ((*out, "+"), inside), ("ab", n + 1), mode, validator
                    yield (inside, (*out, "+")), ("ab", n + 1), mode, validator


# -- parts with several expressions (see KNOWN_FINDINGS) --------------------------------------------
SEVERAL = [
    ((("b",), None), (("a", "c"), "?"), "bc.a", [(0, 2)]),
    ((("a", "b"), "+"), None, "abab", [(0, 4)]),
    ((("a", "b"), 2), None, "ab", [(0, 2)]),
]


def several_run(ctx, case):
    first, second, text, want = case
    builder = Rebulk(default_rules=False).chain()
    for part in (first, second):
        if part:
            added = builder.string(*part[0])
            if part[1]:
                added.repeater(part[1])
    ctx.ran()
    ctx.eq([m.span for m in builder.close().matches(text)], want, lambda: f"chain {first} {second} on {text!r}")
    ctx.state(case)


# -- repeaters, hidden and further parts set one after the other, with calls in between ---------------
CALLS = ["hide", "show", "part", *[r for r in REPEATERS if r not in (None, "1", "{0}", "{2}", "3", 0)]]


def calls_run(ctx, case):
    first, calls = case
    bulk = Rebulk(default_rules=False)
    chain = bulk.chain(name="chain")
    parts = [{"kind": "string", "pattern": "a"}, {"kind": "regex", "pattern": "(?P<x>b)"}] if first else [{"kind": "regex", "pattern": "(?P<x>b)"}]
    part = None
    for p in parts:
        part = getattr(chain, p["kind"])(p["pattern"])
    current = parts[-1]
    for call in (None, *calls):
        if call == "hide":
            current["hidden"], got = True, part.hidden()
        elif call == "show":
            current["hidden"], got = False, part.hidden(False)
        elif call == "part":
            parts.append({"kind": "string", "pattern": "a", "repeater": "?"})
            got = part
            chain.string("a").repeater("?")
        elif call is not None:
            current["repeater"], got = call, part.repeater(call)
        else:
            got = part
        ctx.ok(got is part, "the part itself is returned")
        ctx.eq(part.is_hidden, current.get("hidden", False), "is_hidden")
        if not first and REPEATERS[current.get("repeater")][0] == 0:
            continue  # a first part is mandatory
        for text in texts("ab", 5):
            want = reference(parts, text, name="chain")
            ctx.ran()
            ctx.eq([(m.start, m.end, [(c.start, c.end, c.name) for c in m.children]) for m in bulk.matches(text)], [(c["start"], c["end"], [ch[:3] for ch in c["children"]]) for c in want], lambda: f"{case} after {call} on {text!r}")
    ctx.state(case)


def calls_cases(tier):
    for first in (True, False):
        for k in range(1, 4 if tier == "thorough" else 3):
            for calls in itertools.product(CALLS, repeat=k):
                if calls.count("part") < 2:
                    yield first, calls


def families():
    return [
        Family("two_parts", two_cases, run, "12 patterns x repeaters, up to 2 parts, on every text over {a,b,-} up to 5 (thorough 7); every repeater form"),
        Family("three_parts", three_cases, run, "3 parts of 3 (thorough 5) patterns x repeaters on every text over {a,b} up to 6 (thorough 7)"),
        Family("hidden", hidden_cases, run, "every assignment of hidden to 2-3 parts"),
        Family("calls", calls_cases, calls_run, "every sequence of up to 2 (thorough 3) calls of repeater (10 forms), hidden(), hidden(False) on a part, and further parts, with matches() in between"),
        Family("blanks", spaced_cases, run, "2-3 parts with blanks in patterns and texts"),
        Family("control", control_cases, run, "chain breakers and validators on chains of 1-2 parts"),
        Family("part_options", mode_cases, run, "1-3 parts returning children, everything, some of their groups, or none of some repetitions, on every text"),
        Family("raw_spans", raw_cases, raw_run, "1-3 parts whose matches are trimmed by a processor, keeping the span they were found at, on every text"),
        Family("several_expressions", lambda tier: iter(SEVERAL), several_run, "three chains whose parts have several expressions"),
        Family("nested", nested_cases, run, "chains inside chains (two levels), followed and preceded by other parts"),
        Family("nested_control", nested_control_cases, run, "chain breakers and validators on chains holding chains"),
        Family("nested_options", nested_option_cases, nested_run, "chains inside chains returning their children, everything, or with private parts"),
        sizes("C13"),
    ]
