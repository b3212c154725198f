"""C01: lookups of Matches/Markers always answer from the current contents (explicit-state search over edit and lookup histories)."""
from __future__ import annotations

from rebulk.key import Key
from rebulk.match import Markers, Match, Matches

from .canon import canon
from .core import BFS, Violation
from .sizes import sizes

ASSUMPTIONS = [
    "pool of 4 matches per collection, each present at most once; spans, names and tags of a match are not modified while it is in the collection",
    "names are compared as sets (their order is not part of the property)",
]

TEXT = "abcdef"
# (start, end, name, tags): P0 and P1 are equal by value; P2 overlaps both; P3 is unnamed, untagged and ends last
POOLS = {
    "mix": [(0, 2, "n", ["t"]), (0, 2, "n", ["u", "u"]), (1, 3, "m", ["t", "u"]), (2, 5, None, [])],
    "far": [(3, 6, "n", []), (0, 1, "m", ["t"]), (0, 6, "n", ["t"]), (1, 4, "n", ["t"])],
}
POOLS["mix3"] = POOLS["mix"][1:]
POOLS["far3"] = POOLS["far"][:3]
K_N, K_M, K_Z = Key("n", str), Key("m", str), Key("z", str)


class Sys:
    pass


class System:
    def __init__(self, markers):
        self.markers = markers

    def configs(self, tier):
        if tier == "thorough":
            return [(pool, text, True) for pool in POOLS for text in (True, False)]
        if self.markers:
            return [("mix3", False, False)]
        return [("mix", True, False), ("far3", False, False), ("mix3", False, True)]

    def depth(self, tier, config):
        return 20

    def build(self, config):
        pool, text, _ = config
        s = Sys()
        string = TEXT if text else None
        s.pool = [Match(a, b, name=n, tags=list(t), marker=self.markers, input_string=string) for a, b, n, t in POOLS[pool]]
        s.config = config
        s.bad = Match(1, 2, name="bad", tags=["bad"], marker=not self.markers, input_string=string)
        s.c = (Markers if self.markers else Matches)(input_string=string)
        s.ref = []
        s.text = string
        return s

    def canon(self, s):
        return hash(repr(canon(s.c, {id(m): f"P{i}" for i, m in enumerate(s.pool)}, ordered=s.config[2])))

    def ops(self, config):
        ops = []
        n = len(POOLS[config[0]])
        for i in range(n):
            ops += [("append", i), ("insert", 0, i), ("insert", 1, i), ("insert", -1, i), ("remove", i), ("set", 0, i), ("set", -1, i), ("set", 1, i)]
            ops += [("setslice", 0, 1, i), ("setslice", 1, 1, i), ("setslice", 1, 3, i), ("ctor", i)]
        ops += [("insert", 99, 0), ("extend", 0, n - 1), ("extend", 2, 1), ("iadd", 1, 2), ("setstep", 0, n - 1)]
        ops += [("pop",), ("pop", 0), ("del", 0), ("del", 1), ("del", -1), ("delslice", 0, 2, None), ("delslice", 1, None, None), ("delslice", None, None, 2),
                ("reverse",), ("clear",), ("badappend",), ("badset", 0), ("badslice",), ("badinsert",), ("sort_slice",)]
        ops += [("q", "named", "n"), ("q", "named", "z"), ("q", "tagged", "t"), ("q", "tagged", "z"), ("q", "starting", 0), ("q", "starting", 40), ("q", "ending", 2),
                ("q", "ending", 50), ("q", "at_index", 1), ("q", "at_index", 99), ("q", "at_span", (0, 2)), ("q", "names"), ("q", "tags"), ("q", "key"), ("q", "next"),
                ("q", "range"), ("q", "conflicting"), ("q", "holes"), ("q", "slice")]
        return ops

    def apply(self, ctx, s, op):
        c, ref, pool = s.c, s.ref, s.pool
        kind = op[0]

        def both(fn):
            """Apply to the collection and to a plain list; same outcome expected."""
            out = []
            for target in (c, ref):
                try:
                    out.append(("ok", fn(target)))
                except (IndexError, ValueError) as exc:
                    out.append(("exc", type(exc)))
            if ctx is not None:
                if out[0][0] != out[1][0] or (out[0][0] == "exc" and out[0][1] is not out[1][1]) or (out[0][0] == "ok" and out[0][1] is not out[1][1]):
                    raise Violation(f"edit {op} returned {out[0]} where a list gives {out[1]}")

        def absent(*idx):
            return not any(m is pool[i] for i in idx for m in ref)

        def setitem(target, k, v):
            target[k] = v

        def delitem(target, k):
            del target[k]

        def none(x):
            return None

        if kind == "append":
            if not absent(op[1]):
                return False
            both(lambda t: t.append(pool[op[1]]))
        elif kind == "insert":
            if not absent(op[2]):
                return False
            both(lambda t: t.insert(op[1], pool[op[2]]))
        elif kind == "remove":
            both(lambda t: t.remove(pool[op[1]]))
        elif kind == "set":
            if not absent(op[2]) and not (ref and -len(ref) <= op[1] < len(ref) and ref[op[1]] is pool[op[2]]):
                return False
            both(lambda t: setitem(t, op[1], pool[op[2]]))
        elif kind == "setslice":
            rest = ref[: op[1]] + ref[op[2]:]
            if any(m is pool[op[3]] for m in rest):
                return False
            both(lambda t: setitem(t, slice(op[1], op[2]), (m for m in [pool[op[3]]])))
        elif kind == "setstep":
            if len(ref) < 3 or not absent(op[1], op[2]):
                return False
            both(lambda t: setitem(t, slice(0, 3, 2), [pool[op[1]], pool[op[2]]]))
        elif kind == "ctor":
            if ref or not absent(op[1]):
                return False
            s.c = type(c)([pool[op[1]]], input_string=s.text)
            ref.append(pool[op[1]])
        elif kind in ("extend", "iadd"):
            if not absent(op[1], op[2]):
                return False
            items = [pool[op[1]], pool[op[2]]]
            if kind == "extend":
                both(lambda t: t.extend(m for m in items))
            else:
                c += items
                ref += items
        elif kind == "pop":
            both(lambda t: t.pop(*op[1:]))
        elif kind == "del":
            both(lambda t: delitem(t, op[1]))
        elif kind == "delslice":
            both(lambda t: delitem(t, slice(*op[1:])))
        elif kind == "reverse":
            both(lambda t: t.reverse())
        elif kind == "clear":
            both(lambda t: t.clear())
        elif kind == "sort_slice":
            # the idiom to sort a collection in place
            both(lambda t: setitem(t, slice(None, None), sorted(t)))
        elif kind.startswith("bad"):
            if kind == "badset" and not ref or kind == "badslice" and not ref:
                return False
            try:
                if kind == "badappend":
                    c.append(s.bad)
                elif kind == "badset":
                    c[0] = s.bad
                elif kind == "badinsert":
                    c.insert(0, s.bad)
                else:
                    c[0:1] = [s.bad]
            except AssertionError:
                pass
            else:
                if ctx is not None:
                    raise Violation(f"{op}: a match of the wrong kind was accepted")
        elif kind == "q":
            self.query(s, *op[1:])
        else:
            raise KeyError(kind)
        return True

    def query(self, s, what, arg=None):
        c = s.c
        if what in ("named", "tagged", "starting", "ending", "at_index", "at_span"):
            ret = getattr(c, what)(arg)
            ret.clear()  # the caller owns the answer
        elif what in ("names", "tags"):
            list(getattr(c, what))
        elif what == "key":
            c[K_N], c[K_Z]
            c.all(K_Z).append(1)
        elif what == "next":
            for ret in (c.next(s.pool[0]), c.previous(s.pool[-1])):
                ret.clear()
        elif what == "range":
            c.range(1, 4).clear()
        elif what == "conflicting":
            c.conflicting(s.pool[2]).clear()
        elif what == "holes":
            c.holes().clear()
        elif what == "slice":
            part = c[0:2]
            if part:
                part.pop()

    def check(self, ctx, s):
        c, ref = s.c, s.ref
        n = len(TEXT)

        def same(got, want, what):
            ctx.comparisons += 1
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                raise Violation(f"{what}: got {list(got)!r}, current contents {ref!r} give {want!r}")

        same([m for m in c], ref, "iteration")
        ctx.eq(len(c), len(ref), "len")
        same([c[i] for i in range(len(ref))], ref, "indexing")
        same([c[-i - 1] for i in range(len(ref))], ref[::-1], "negative indexing")
        top = max([m.end for m in ref] + ([len(s.text)] if s.text else [0]))
        ctx.eq(c.max_end, top, "max_end")
        ctx.eq(set(c.names), {m.name for m in ref if m.name}, "names")
        ctx.eq(set(c.tags), {t for m in ref for t in m.tags}, "tags")
        for name in ("n", "m", "z", "bad"):
            same(c.named(name), [m for m in ref if m.name == name], f"named({name!r})")
        for asked in ("mn", "mm", "nmn"):
            same(c.named(*asked), [m for k in dict.fromkeys(asked) for m in ref if m.name == k], f"named of {asked}")
        for tag in ("t", "u", "z", "bad"):
            same(c.tagged(tag), [m for m in ref if tag in m.tags], f"tagged({tag!r})")
        for i in range(n + 1):
            same(c.starting(i), [m for m in ref if m.start == i], f"starting({i})")
            same(c.ending(i), [m for m in ref if m.end == i], f"ending({i})")
            same(c.at_index(i), [m for m in ref if m.start <= i < m.end], f"at_index({i})")
        for span in ((0, 2), (1, 4), (2, 6)):
            a = [m for m in ref if m.start <= span[0] < m.end]
            a += [m for m in ref if m.start <= span[1] - 1 < m.end and not any(m is x for x in a)]
            same(c.at_span(span), a, f"at_span({span})")
        same(c.range(1, 3), sorted([m for m in ref if m.start < min(3, top) and m.end > 1], key=lambda m: m.span), "range(1, 3)")
        for p in s.pool:
            ends = [m.end for m in ref if m.end <= p.start]
            same(c.previous(p), [m for m in ref if ends and m.end == max(ends)], "previous")
            starts = [m.start for m in ref if m.start > p.start]
            same(c.next(p), [m for m in ref if starts and m.start == min(starts)], "next")
        for key in (K_N, K_M, K_Z):
            values = [m.value for m in ref if m.name == key.name]
            ctx.eq(c.all(key), values, f"all({key.name})")
            ctx.eq(c[key], values[0] if values else None, f"[{key.name}]")
        part = c[1:3]
        ctx.ok(type(part).__name__ == type(c).__name__, "a slice is of the same kind of collection")
        same(list(part), ref[1:3], "slice")
        same(list(part.named("n")), [m for m in ref[1:3] if m.name == "n"], "named on a slice")
        ctx.eq(part.max_end, max([m.end for m in ref[1:3]] + ([len(s.text)] if s.text else [0])), "max_end of a slice")
        same([m for m in c], ref, "iteration after lookups")


def families():
    rule = ("operations: append/extend/insert/iadd/item, slice and extended-slice assignment/pop/del/remove/reverse/clear/rejected edits with 4 pool matches, "
            "and lookups whose answer the caller clears; after each transition every lookup is compared with brute force over a plain list")
    return [BFS("matches", System(False), rule), BFS("markers", System(True), rule), sizes("C01")]
