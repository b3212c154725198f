"""Generic canonical form of an object graph: equal canonical forms have the same futures (every attribute, order and aliasing is kept)."""
from __future__ import annotations

ATOMS = (str, bytes, int, float, bool, type(None), complex)


def canon(obj, known=None, ordered=True):
    """`known` maps id(object) -> label for objects of a fixed pool (their own state is walked too).
    With ordered=False the insertion order of dictionaries is dropped (coarser: assumes lookups by key only)."""
    known = known or {}
    seen = {}
    keep = []

    def walk(x):
        if isinstance(x, ATOMS):
            return x
        key = id(x)
        if key in seen:
            return ("ref", seen[key])
        seen[key] = len(seen)
        keep.append(x)
        label = known.get(key)
        if isinstance(x, dict):
            items = x.items() if ordered else sorted(x.items(), key=lambda kv: repr(kv[0]))
            body = ("dict", tuple((walk(k), walk(v)) for k, v in items))
        elif isinstance(x, (list, tuple)) and type(x).__module__ in ("builtins", "collections"):
            body = (type(x).__name__, tuple(walk(v) for v in x))
        elif isinstance(x, (set, frozenset)):
            body = ("set", tuple(sorted(repr(walk(v)) for v in x)))
        elif isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
            body = ("obj", getattr(x, "__qualname__", repr(type(x))))
        else:
            attrs = {}
            for klass in type(x).__mro__:
                for slot in getattr(klass, "__slots__", ()) if isinstance(getattr(klass, "__slots__", ()), (tuple, list)) else ():
                    name = slot if not slot.startswith("__") or slot.endswith("__") else f"_{klass.__name__.lstrip('_')}{slot}"
                    if hasattr(x, name):
                        attrs[name] = getattr(x, name)
            attrs.update(getattr(x, "__dict__", {}))
            if callable(x) and hasattr(x, "__qualname__"):
                body = ("fn", x.__qualname__)
            else:
                body = (type(x).__name__, tuple((k, walk(attrs[k])) for k in sorted(attrs)))
        return (label, body) if label is not None else body

    return walk(obj)
