"""Every public lookup of a collection, as a comparable value (matches by identity)."""
from __future__ import annotations


def lookups(c, names, tags, top):
    """`names`, `tags`: what to ask for; `top`: positions 0..top."""
    ids = lambda ms: [id(m) for m in ms]
    out = {"list": ids(c), "len": len(c), "names": set(c.names), "tags": set(c.tags), "max_end": c.max_end}
    for n in names:
        out["named", n] = ids(c.named(n))
        out["named0", n] = id(c.named(n, 0)) if c.named(n) else c.named(n, 0)
    for t in tags:
        out["tagged", t] = ids(c.tagged(t))
    for p in range(top + 1):
        out["starting", p] = ids(c.starting(p))
        out["ending", p] = ids(c.ending(p))
        out["at_index", p] = ids(c.at_index(p))
    for m in c:
        out["next", id(m)] = ids(c.next(m))
        out["previous", id(m)] = ids(c.previous(m))
        out["at_match", id(m)] = set(ids(c.at_match(m)))
        out["conflicting", id(m)] = set(ids(c.conflicting(m)))
    out["range"] = set(ids(c.range(0, top)))
    return out


def coherent(ctx, c, names, tags, top, what):
    """The collection answers like one freshly built from the same matches."""
    fresh = type(c)(list(c), input_string=c.input_string)
    got, want = lookups(c, names, tags, top), lookups(fresh, names, tags, top)
    label = {id(m): repr(m) for m in c}

    def show(v):
        if isinstance(v, (list, set)):
            return [label.get(x, x) for x in v]
        return label.get(v, v)

    for key in want:
        if got.get(key) != want[key]:
            k = tuple(label.get(x, x) for x in key) if isinstance(key, tuple) else key
            ctx.ok(False, lambda: f"{what() if callable(what) else what}: lookup {k} answers {show(got.get(key))}, the contents say {show(want[key])}")
    ctx.comparisons += len(want)
