"""
Reference interpretation of pattern options, written from the documentation (README "Patterns parameters").

A pattern first finds raw matches (a span and group spans); options then decide values, validity, privacy and what is returned.
"""
from __future__ import annotations

import re

from rebulk.match import Match


class RM:
    """Reference match."""

    def __init__(self, start, end, name=None, text="", private=False, marker=False, tags=()):
        self.start, self.end, self.name, self.text = start, end, name, text
        self.private, self.marker, self.tags = private, marker, list(tags)
        self.literal, self.formatter = None, None
        self.children, self.parent = [], None
        self.repetitions = []  # of a chain: part, first child, end

    @property
    def raw(self):
        return self.text[self.start:self.end]

    @property
    def value(self):
        if self.literal:
            return self.literal
        return self.formatter(self.raw) if self.formatter else self.raw

    @property
    def span(self):
        return self.start, self.end

    @property
    def initiator(self):
        return self.parent.initiator if self.parent else self

    def __len__(self):
        return self.end - self.start


def make(match, start, end, name):
    """A replacement match, for processors that return another instance."""
    if isinstance(match, RM):
        return RM(start, end, name, match.text)
    return Match(start, end, name=name, input_string=match.input_string)


def _upper(s):
    return s.upper()


def _length(s):
    return ("len", len(s))


def _wrap(s):
    return f"<{s}>"


def _empty(s):
    return ""


def _mutate(match):
    if len(match) > 1:
        match.end -= 1
    return match


FUNCS = {
    "up": _upper, "len": _length, "wrap": _wrap, "empty": _empty,
    "v_even": lambda m: m.start % 2 == 0, "v_never": lambda m: False, "v_short": lambda m: m.end - m.start < 2, "v_value": lambda m: m.value in ("A", "AB", "<a>"),
    "v_named": lambda m: m.name in ("n", "x"), "v_none": lambda m: None, "v_private": lambda m: not m.private,
    "p_none": lambda m: None, "p_drop0": lambda m: False if m.start == 0 else None, "p_replace": lambda m: make(m, m.start, m.end, "r") if m.start else m,
    "p_mutate": _mutate, "p_private": lambda m: setattr(m, "private", True),
    "o_reverse": lambda ms, p: list(reversed(ms)), "o_first": lambda ms, p: ms[:1], "o_named": lambda ms, p: [m for m in ms if m.name], "o_or": lambda ms, p: ms or [RM(1, 2, "o", "abcaba") if p is None else Match(1, 2, name="o", input_string="abcaba")],
    "o_empty": lambda ms, p: [],
    "cs_default": lambda a, b: "__default__", "cs_self": lambda a, b: a, "cs_other": lambda a, b: b,
}


def resolve(value):
    """Replace '@id' strings by the functions they name (in dicts too)."""
    if isinstance(value, str) and value.startswith("@"):
        return FUNCS[value[1:]]
    if isinstance(value, dict):
        return type(value)((k, resolve(v)) for k, v in value.items())
    if isinstance(value, list):
        return type(value)(value)
    return value


def raw_matches(kind, patterns, text, opts):
    """Raw matches of each pattern: lists of RM with children."""
    base = dict(private=bool(opts.get("private")), marker=bool(opts.get("marker")), tags=opts.get("tags") or ())
    name = opts.get("name")
    for pattern in patterns:
        if kind == "string":
            at = text.find(pattern)
            while at >= 0:
                yield RM(at, at + len(pattern), name, text, **base)
                at = text.find(pattern, at + len(pattern))
        elif kind == "chain":
            yield from chain_matches(pattern, name, text, base)
        elif kind == "regex":
            rx = re.compile(pattern)
            names = {v: k for k, v in rx.groupindex.items()}
            for mo in rx.finditer(text):
                if mo.end() == mo.start():
                    continue
                m = RM(mo.start(), mo.end(), name, text, **base)
                for g in range(1, rx.groups + 1):
                    if mo.end(g) > mo.start(g):
                        child = RM(mo.start(g), mo.end(g), names.get(g, name), text, **base)
                        child.parent = m
                        m.children.append(child)
                yield m
        else:  # functional: the list of spans it returns, possibly with options of their own
            for start, end, *own in pattern:
                if end > start:
                    own = dict(own[0]) if own else {}
                    yield RM(start, end, own.pop("name", name), text, **{**base, **own})


def chain_matches(parts, name, text, base):
    """Chain matches; the options of the chain are those of its match, parts have their own."""
    from .c13 import decode, reference

    for found in reference(decode(parts), text, name=name):
        m = RM(found["start"], found["end"], name, text, **base)
        m.children = [RM(start, end, own, text) for start, end, own, _ in found["children"]]
        at, m.repetitions = 0, []
        for number, index in zip(found["groups"], found["parts"]):
            part = m.children[at + number]
            part.parent, part.children = m, m.children[at : at + number]
            for group in part.children:
                group.parent = part
            at += number + 1
            m.repetitions.append((index, at - number - 1, part.end))
        yield m


def specific(option, match, child, default=None):
    """The most specific entry of an option."""
    if not isinstance(option, dict):
        option = {None: option}
    for key in ([match.name] if match.name else []) + ["__children__" if child else "__parent__", None]:
        if key in option:
            return option[key]
    return default


def process(kind, patterns, text, opts):
    opts = {k: resolve(v) for k, v in opts.items()}
    children, every = opts.get("children"), opts.get("every")
    show = {True: bool(children or every), False: bool(not children or every)}
    out = []

    def processor(match, fn):
        if fn:
            ret = fn(match)
            if ret is not None:
                return ret
        return match

    def one(match, child):
        if match.name in (opts.get("private_names") or ()) and match.name or (opts.get("private_children") if child else opts.get("private_parent")):
            match.private = True
        literal = specific(opts.get("value"), match, child) if opts.get("value") else None
        if literal:
            match.literal = literal
        if (show[child] or opts.get("format_all")) and opts.get("formatter"):
            match.formatter = specific(opts["formatter"], match, child)
        if (show[child] or opts.get("validate_all")) and opts.get("validator"):
            validator = specific(opts["validator"], match, child)
            return not validator or bool(validator(match))
        return True

    def valid(match):
        """A chain may give up repetitions of its last part, one after the other."""
        if one(match, False):
            return True
        while match.repetitions:
            last, first, _ = match.repetitions.pop()
            del match.children[first:]
            match.end = match.repetitions[-1][2] if match.repetitions else match.start
            if one(match, False):
                return len(match) > 0
            if match.repetitions and match.repetitions[-1][0] != last:
                return False
        return False

    for match in raw_matches(kind, patterns, text, opts):
        match = processor(match, opts.get("pre_match_processor"))
        if not match or not valid(match) or not all([one(c, True) for c in match.children]):
            continue
        match = processor(match, opts.get("post_match_processor"))
        if not match:
            continue
        ignored = opts.get("ignore_names") or ()
        if (show[False] or opts.get("private_parent")) and match.name not in ignored:
            out.append(match)
        if show[True] or opts.get("private_children"):
            out += [c for c in match.children if c.name not in ignored]
    if opts.get("post_processor"):
        out = opts["post_processor"](out, None)
    return out


def view(m, deep=True):
    """Everything observable about a match (reference or real)."""
    row = (m.start, m.end, m.name, bool(m.private), bool(m.marker), list(m.tags), m.value, m.raw)
    if deep:
        row += (m.initiator.span, m.parent.span if m.parent else None, [view(c, False) for c in m.children])
    return row
