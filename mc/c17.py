"""C17: crop and split - every match span, every list of crops, every text over letters and separators."""
from __future__ import annotations

import itertools

from rebulk import Rebulk
from rebulk.match import Match, Matches

from .core import Family
from .sizes import sizes

ASSUMPTIONS = ["matches whose raw span equals their span (raw_start/raw_end not set by the caller); crops with start <= end"]
TEXT = "abCdeF"


def upper(s):
    return s.upper()


def first_char(m):
    return m.raw[0] in "aceACE"


def maker(kind, start, end, text):
    """A match, with what surrounds it: (match, everything that must not change)."""
    if kind == "plain":
        m = Match(start, end, name="n", tags=["t", "u"], formatter=upper, input_string=text)
        return m, Matches([m], input_string=text)
    if kind == "value":
        m = Match(start, end, value="V", private=True, tags=["t"], input_string=text)
        return m, Matches([m], input_string=text)
    if kind == "marker":
        m = Match(start, end, name="n", marker=True, input_string=text)
        c = Matches(input_string=text)
        c.markers.append(m)
        return m, c
    if kind == "child":
        p = Match(max(0, start - 1), min(len(text), end + 1), name="p", tags=["p"], input_string=text)
        m = Match(start, end, name="n", parent=p, tags=["t"], input_string=text)
        p.children.append(m)
        return m, Matches([m, p], input_string=text)
    if kind == "parent":
        m = Match(start, end, name="n", input_string=text)
        m.children.append(Match(start, start + 1, name="c", parent=m, input_string=text))
        return m, Matches([m], input_string=text)
    # from a configured Rebulk
    c = Rebulk(default_rules=False).functional(lambda s: [(start, end)], name="n", tags=["t"], formatter=upper, validator=lambda m: True).matches(text)
    return c[0], c


KINDS = ["plain", "value", "marker", "child", "parent", "rebulk"]


def shot(m):
    return (m.start, m.end, m.name, list(m.tags), m.value, m.raw, m.formatter, m.private, m.marker, m.parent and shot(m.parent), [(c.span, c.name, c.value, c.parent is m) for c in m.children], m.input_string)


def whole(c):
    return [(id(m), shot(m)) for m in list(c) + list(c.markers)], c.names, [m.span for m in c.named("n")], [m.span for m in c.tagged("t")]


def check_copy(ctx, m, piece, text, what):
    ctx.ok(piece is not m, lambda: what() + ": a copy")
    got = (piece.name, piece.tags, piece.formatter, piece.input_string, bool(piece.private), bool(piece.marker))
    ctx.eq(got, (m.name, m.tags, m.formatter, text, bool(m.private), bool(m.marker)), lambda: what() + ": attributes of a piece")
    ctx.eq(piece.raw, text[piece.start:piece.end], lambda: what() + ": raw")
    default = piece.raw.upper() if m.formatter else piece.raw
    ctx.eq(piece.value, "V" if m.has_literal_value else default, lambda: what() + ": value")
    ctx.ok(piece.tags is not m.tags, lambda: what() + ": tags are shared")


def use(ctx, pieces, what):
    """The pieces are independent of each other too."""
    shots = [(p.name, list(p.tags), list(p.children)) for p in pieces]
    for i, p in enumerate(pieces):
        p.tags.append(i)
        p.children.append(Match(0, i + 1))
        p.name = f"changed{i}"
    want = [(f"changed{i}", tags + [i], children + [Match(0, i + 1)]) for i, (_, tags, children) in enumerate(shots)]
    ctx.eq([(p.name, p.tags, list(p.children)) for p in pieces], want, lambda: what() + ": pieces after using each of them")
    for p in pieces:
        p.children.pop()


def picks(ctx, call, pieces, what):
    """predicate and index."""
    spans = [p.span for p in pieces]
    for index in (0, 1, -1, 5):
        want = spans[index] if -len(spans) <= index < len(spans) else None
        got = call(None, index)
        ctx.eq(got.span if got is not None else None, want, lambda: what() + f" index {index}")
        got = call(index, None)
        ctx.eq(got.span if got is not None else None, want, lambda: what() + f" index {index} given in place of the predicate")
    chosen = [p.span for p in pieces if first_char(p)]
    ctx.eq([p.span for p in call(first_char, None)], chosen, lambda: what() + " predicate")
    got = call(first_char, 0)
    ctx.eq(got.span if got is not None else None, chosen[0] if chosen else None, lambda: what() + " predicate and index")


def crop_run(ctx, case):
    kind, span, crops, form, text = case
    m, c = maker(kind, *span, text)
    before = whole(c)
    given = [tuple(x) for x in crops]
    if form == "matches":
        arg = [Match(s, e, input_string=text) for s, e in given]
    elif form == "collection":
        arg = Matches([Match(s, e, input_string=text) for s, e in given])
    elif form == "single":
        arg = Match(*given[0], input_string=text)
    elif form == "span":
        arg = given[0]
    elif form == "span list":
        arg = list(given[0])
    elif form == "tuple":
        arg = tuple(given)
    else:
        arg = list(given)
    what = lambda: f"{kind} match at {span} of {text!r} cropped by {given} ({form})"
    pieces = m.crop(arg)
    ctx.ran()
    ctx.ok(isinstance(pieces, list), what)
    for p in pieces:
        ctx.ok(p.start < p.end, lambda: what() + f": empty piece {p.span}")
        check_copy(ctx, m, p, text, what)
    covered = sorted(i for p in pieces for i in range(p.start, p.end))
    want = [i for i in range(*span) if not any(s <= i < e for s, e in given)]
    ctx.eq(covered, want, lambda: what() + ": positions of the pieces")
    if not any(s == e for s, e in given):
        runs = [i for i in want if i - 1 not in want]
        ctx.eq(sorted(p.start for p in pieces), runs, lambda: what() + ": number of pieces")
    ctx.eq(whole(c), before, lambda: what() + ": the match itself")
    use(ctx, pieces, what)
    ctx.eq(whole(c), before, lambda: what() + ": the match after using the pieces")
    if form in ("list", "single"):
        picks(ctx, lambda pred, index: m.crop(arg, predicate=pred, index=index), m.crop(arg), what)
    ctx.state((span, given, [p.span for p in pieces]))


def crop_cases(tier):
    n = 6
    spans = [(s, e) for s in range(n) for e in range(s + 1, n + 1)]
    inside = [(0, 5), (1, 4), (2, 3), (1, 5)] if tier != "thorough" else spans
    all_crops = [(s, e) for s in range(n + 1) for e in range(s, n + 1)]
    for kind in KINDS:
        for span in spans:
            for crop in all_crops:
                for form in ("list", "matches", "single", "span", "span list", "collection", "tuple"):
                    yield kind, span, (crop,), form, TEXT
    for span in spans:
        yield "plain", span, (), "list", TEXT
        for two in itertools.product(all_crops, repeat=2):
            yield "plain", span, two, "list", TEXT
            if span == (1, 5):
                for form in ("matches", "tuple"):
                    yield "child", span, two, form, TEXT
    crops3 = [c for c in all_crops if c[0] < c[1]] if tier != "thorough" else all_crops
    for span in inside:
        for three in itertools.product(crops3, repeat=3):
            if tier == "thorough" or span == (1, 5) or span == (1, 4) or sum(map(sum, three)) % 4 == 0:
                yield "plain", span, three, "list", TEXT


def split_run(ctx, case):
    kind, text, span, seps = case
    m, c = maker(kind, *span, text)
    before = whole(c)
    what = lambda: f"{kind} match at {span} of {text!r} split by {seps!r}"
    pieces = m.split(seps)
    ctx.ran()
    want, at = [], None
    for i in range(span[0], span[1] + 1):
        is_word = i < span[1] and text[i] not in seps
        if is_word and at is None:
            at = i
        elif not is_word and at is not None:
            want.append((at, i))
            at = None
    ctx.eq([p.span for p in pieces], want, what)
    for p in pieces:
        check_copy(ctx, m, p, text, what)
    ctx.eq(whole(c), before, lambda: what() + ": the match itself")
    use(ctx, pieces, what)
    ctx.eq(whole(c), before, lambda: what() + ": the match after using the pieces")
    if len(text) <= 5:
        picks(ctx, lambda pred, index: m.split(seps, predicate=pred, index=index), m.split(seps), what)
    ctx.state((text, span, want))


def split_cases(tier):
    top = 8 if tier == "thorough" else 7
    for n in range(1, top + 1):
        for chars in itertools.product("a- " if n < 7 else "a-", repeat=n):
            text = "".join(chars)
            for s in range(n):
                for e in range(s + 1, n + 1):
                    if n > 5 and tier != "thorough" and (s > 1 or e < n - 1):
                        continue
                    kinds = KINDS if n <= 3 else ("plain", "child") if n <= 5 else ("plain",)
                    for kind in kinds:
                        for seps in ("-", "- ", "", "a") if n <= 4 else ("- ", "-") if n <= 6 else ("-",):
                            yield kind, text, (s, e), seps


def families():
    return [
        Family("crop", crop_cases, crop_run, "every match span of a text of 6 characters x every crop (6 kinds of matches, 6 forms), every two crops, three crops"),
        Family("split", split_cases, split_run, "every text up to 7 (thorough 8) characters over letter and separators x every span x separators"),
        sizes("C17"),
    ]
