"""C02: positional queries agree with brute-force definitions on every small layout of spans."""
from __future__ import annotations

import itertools

from rebulk.match import Match, Matches

from .core import Family, Violation
from .sizes import sizes

ASSUMPTIONS = ["spans are non-empty and lie in the input string; strings of length 5 (4 for the argument-combination family)"]


def spans(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def layouts(n, k):
    for size in range(k + 1):
        yield from itertools.product(spans(n), repeat=size)


def build(layout, text):
    # the first match is named x, the others y: equal spans give equal twins
    return [Match(a, b, name="x" if i == 0 else "y", tags=["t"], input_string=text) for i, (a, b) in enumerate(layout)]


def same(ctx, got, want, what):
    ctx.comparisons += 1
    if not isinstance(got, list) or len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def uniq(items):
    out = []
    for m in items:
        if not any(m is x for x in out):
            out.append(m)
    return out


class Ref:
    """Definitions, straight from the documentation."""

    def __init__(self, ms, text):
        self.ms, self.text = ms, text
        self.top = max([m.end for m in ms] + [len(text) if text else 0])

    def at(self, i):
        return [m for m in self.ms if m.start <= i < m.end]

    def previous(self, q):
        ends = [m.end for m in self.ms if m.end <= q.start]
        return [m for m in self.ms if ends and m.end == max(ends)]

    def next(self, q):
        starts = [m.start for m in self.ms if m.start > q.start]
        return [m for m in self.ms if starts and m.start == min(starts)]

    def range(self, s, e):
        return sorted([m for m in self.ms if m.start < e and m.end > s], key=lambda m: m.span)

    def at_span(self, s, e):
        return uniq(self.at(s) + self.at(e - 1))

    def conflicting(self, q):
        # order: by first shared position, then list order
        return uniq(m for i in range(q.start, q.end) for m in self.at(i) if m is not q)

    def chain(self, positions, seps, predicate):
        out = []
        for i in positions:
            found = [m for m in self.at(i) if not predicate or predicate(m)]
            if found:
                out += found
            elif self.text[i] not in seps:
                break
        return uniq(out)

    def holes(self, s, e, ignore):
        covered = {i for m in self.ms if not (ignore and ignore(m)) for i in range(m.start, m.end)}
        out, run = [], None
        for i in range(s, min(e, self.top)):
            if i in covered:
                run = None
            elif run is None:
                run = [i, i + 1]
                out.append(run)
            else:
                run[1] = i + 1
        return [tuple(r) for r in out]


def is_y(m):
    return m.name == "y"


def is_x(m):
    return m.name == "x"


def plain(ctx, case):
    layout, has_text = case
    n = 5
    text = "ab-c-" if has_text else None
    ms = build(layout, text)
    c = Matches(ms, input_string=text)
    r = Ref(ms, text)
    ctx.ran()
    for q in ms + [Match(a, b, input_string=text) for a, b in spans(n)]:
        same(ctx, c.previous(q), r.previous(q), f"previous{q.span}")
        same(ctx, c.next(q), r.next(q), f"next{q.span}")
        same(ctx, c.conflicting(q), r.conflicting(q), f"conflicting{q.span}")
        same(ctx, c.at_match(q), r.at_span(*q.span), f"at_match{q.span}")
    for i in range(n + 2):
        same(ctx, c.at_index(i), r.at(i), f"at_index({i})")
    for s, e in spans(n):
        same(ctx, c.at_span((s, e)), r.at_span(s, e), f"at_span({s},{e})")
        same(ctx, c.range(s, e), r.range(s, e), f"range({s},{e})")
    for s in range(n + 2):
        same(ctx, c.range(s), r.range(s, r.top) if s < r.top else [], f"range({s})")
        for e in [*range(n + 3), None]:
            for ignore in (None, is_y):
                got = c.holes(s, e, ignore=ignore)
                want = r.holes(s, r.top if e is None else e, ignore)
                ctx.eq([h.span for h in got], want, lambda: f"holes({s}, {e}, ignore={ignore and 'y'}) of {layout}")
                if text:
                    for h in got:
                        ctx.eq(h.raw, text[h.start:h.end], "raw of a hole")
    ctx.eq([m.span for m in c], list(layout), "contents after queries")
    ctx.state((layout, [m.span for m in c.holes()]))


def plain_cases(tier):
    for layout in layouts(5, 3):
        yield layout, True
        if len(layout) < 3 or tier == "thorough":
            yield layout, False
    if tier == "thorough":
        for layout in itertools.combinations_with_replacement(spans(5), 4):
            yield layout, True


# what stands for the letter and the separator, and the separators given: characters that mean something in other notations
WRITTEN = [("a", "-", "-"), (",", "-", "+-."), ("a", "^", "^b"), ("w", "\\", "\\d"), ("b", "]", "[]a"), (".", " ", " \t"), ("\n", "_", "_-_"), ("A", "a", "ab"), ("é", "e", "e")]


def texts(n):
    for t in itertools.product("a-", repeat=n):
        yield "".join(t)


def seps_run(ctx, case):
    layout, text, (letter, sep, written) = case
    n = len(text)
    text = text.translate(str.maketrans("a-", letter + sep))
    ms = build(layout, text)
    c = Matches(ms, input_string=text)
    r = Ref(ms, text)
    ctx.ran()
    for predicate in (None, is_y):
        for seps in (written, "", sep + letter):
            for p in range(n + 2):
                for s in (0, 1, 2):
                    same(ctx, c.chain_before(p, seps, s, predicate), r.chain(reversed(range(s, min(p, r.top))), seps, predicate), f"chain_before({p},{seps!r},{s})")
                for e in (None, 1, 3, n + 1):
                    top = r.top if e is None else min(e, r.top)
                    same(ctx, c.chain_after(p, seps, e, predicate), r.chain(range(p, top), seps, predicate), f"chain_after({p},{seps!r},{e})")
            for m in ms:
                same(ctx, c.chain_before(m, seps, predicate=predicate), r.chain(reversed(range(0, m.start)), seps, predicate), f"chain_before({m.span},{seps!r})")
                same(ctx, c.chain_after(m, seps, predicate=predicate), r.chain(range(m.end, r.top), seps, predicate), f"chain_after({m.span},{seps!r})")
    for ignore in (None, is_y):
        covered = {i for m in ms if not (ignore and ignore(m)) for i in range(m.start, m.end)}
        for s in range(n + 1):
            for e in [*range(n + 2), None]:
                got = [h.span for h in c.holes(s, e, ignore=ignore, seps=written)]
                what = f"holes({s}, {e}, seps={written!r}, ignore={bool(ignore)}) on {text!r} {layout}: {got}"
                lo, hi = s, min(n, n if e is None else e)
                pos = [i for a, b in got for i in range(a, b)]
                ctx.ok(all(lo <= a < b <= hi for a, b in got), lambda: what + " (range)")
                ctx.ok(all(x[1] <= y[0] for x, y in zip(got, got[1:])), lambda: what + " (order)")
                ctx.ok(not covered & set(pos), lambda: what + " (covered position)")
                ctx.ok(all(i in pos for i in range(lo, hi) if i not in covered and text[i] not in written), lambda: what + " (missing position)")
                ctx.ok(not any(sep in text[a + 1:b] for a, b in got), lambda: what + " (separator inside)")
                runs = [tuple(g) for g in r.holes(s, n if e is None else e, ignore)]
                ctx.ok(all(any(a <= x and y <= b for a, b in runs) for x, y in got), lambda: what + " (spans two holes)")
                # two letters of one run without separator between them are in the same hole
                for a, b in runs:
                    for i in range(a, b - 1):
                        if sep not in text[i : i + 2]:
                            ctx.ok(any(x <= i and i + 2 <= y for x, y in got), lambda: what + " (split without separator)")
                ctx.state((text, s, e, got))


def seps_cases(tier):
    for text in texts(5 if tier == "thorough" else 4):
        for layout in layouts(len(text), 2):
            yield layout, text, WRITTEN[0]
        for layout in layouts(len(text), 1):
            for other in WRITTEN[1:]:
                yield layout, text, other


def args_run(ctx, case):
    """predicate and index, in every way of passing them, on every query."""
    (layout,) = case
    text = "a-b-"
    ms = build(layout, text)
    c = Matches(ms, input_string=text)
    ctx.ran()
    q = ms[0]
    queries = [("previous", (Match(3, 4),)), ("next", (Match(0, 1),)), ("next", (q,)), ("tagged", ("t",)), ("starting", (q.start,)), ("ending", (q.end,)), ("range", (1, 3)), ("range", (0, None)),
               ("conflicting", (q,)), ("at_match", (q,)), ("at_span", ((0, 4),)), ("at_index", (1,)), ("named", ("x",)), ("named", ("y",)), ("holes", ())]
    for name, args in queries:
        fn = getattr(c, name)
        base = fn(*args)
        ident = [m.span if name == "holes" else id(m) for m in base]

        def view(r):
            if r is None:
                return None
            if isinstance(r, list):
                return [m.span if name == "holes" else id(m) for m in r]
            return r.span if name == "holes" else id(r)

        for pname, pred in (("none", None), ("y", is_y), ("x", is_x), ("falsy", lambda m: 0), ("truthy", lambda m: "yes"), ("long", lambda m: len(m) > 1)):
            kept = [i for i, m in zip(ident, base) if pred is None or pred(m)]
            ctx.eq(view(fn(*args, predicate=pred)), kept, f"{name}{args} predicate={pname}")
            if name != "holes" and pred:
                ctx.eq(view(fn(*args, pred)), kept, f"{name}{args} positional predicate={pname}")
            for index in (0, 1, 2, -1, -2, 7, -7):
                want = kept[index] if -len(kept) <= index < len(kept) else None
                ctx.eq(view(fn(*args, predicate=pred, index=index)), want, f"{name}{args} predicate={pname} index={index}")
                if name != "holes":
                    if pred is None:
                        ctx.eq(view(fn(*args, index)), want, f"{name}{args} positional index={index}")
                        ctx.eq(view(fn(*args, index=index)), want, f"{name}{args} index={index}")
                    else:
                        ctx.eq(view(fn(*args, pred, index)), want, f"{name}{args} positional predicate={pname}, index={index}")
    for index in (0, 1, -1, 4):
        for name, pos, ref in (("chain_after", 0, c.chain_after(0, "-")), ("chain_before", 4, c.chain_before(4, "-"))):
            got = getattr(c, name)(pos, "-", index=index)
            ctx.ok(got is (ref[index] if -len(ref) <= index < len(ref) else None), f"{name} index={index}")
    holes = c.holes(formatter=lambda raw: raw.upper())
    ctx.eq([h.value for h in holes], [text[h.start:h.end].upper() for h in holes], "value of formatted holes")
    ctx.state(case)


def args_cases(tier):
    for layout in layouts(4, 3 if tier == "thorough" else 2):
        if layout:
            yield (layout,)
    if tier != "thorough":
        for layout in itertools.combinations_with_replacement(spans(4), 3):
            yield (layout,)
            yield (layout[::-1],)


def families():
    return [
        Family("layouts", plain_cases, plain, "every sequence of up to 3 spans over 5 positions (thorough: 4, unordered) x every argument of every query, with/without text and ignore"),
        Family("separators", seps_cases, seps_run, "every text over {a,-} of length 4 (thorough 5) x every sequence of up to 2 spans: chain_before, chain_after and holes with separators"),
        Family("arguments", args_cases, args_run, "every layout of up to 3 spans over 4 positions x every query x every way of passing predicate and index"),
        sizes("C02"),
    ]
