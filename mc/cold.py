"""Put the modules of the package back into the state they have after import (as in a process that has not used them yet)."""
from __future__ import annotations

import sys
import types

import rebulk  # noqa: F401  (every module that configurations use)
import rebulk.introspector  # noqa: F401

CONTAINERS = (dict, list, set)


def _spaces():
    for name, module in sorted(sys.modules.items()):
        if (name == "rebulk" or name.startswith("rebulk.")) and isinstance(module, types.ModuleType):
            yield module
            for value in list(vars(module).values()):
                if getattr(value, "__module__", "").startswith("rebulk") if isinstance(getattr(value, "__module__", ""), str) else False:
                    if isinstance(value, (type, types.FunctionType)):
                        yield value
                    if isinstance(value, type):
                        for member in list(vars(value).values()):
                            member = getattr(member, "__func__", getattr(member, "fget", member))
                            if isinstance(member, types.FunctionType):
                                yield member


class Cold:
    def __init__(self):
        self.spaces, self.contents, self.caches, seen = [], [], [], set()

        def keep(value):
            if isinstance(value, CONTAINERS) and type(value).__module__ in ("builtins", "collections") and id(value) not in seen:
                seen.add(id(value))
                self.contents.append((value, type(value).copy(value)))
            if callable(getattr(value, "cache_clear", None)) and not isinstance(value, type):
                self.caches.append(value)

        for space in _spaces():
            if id(space) in seen:
                continue
            seen.add(id(space))
            members = {k: v for k, v in vars(space).items() if not k.startswith("__")}
            self.spaces.append((space, members))
            for value in members.values():
                keep(value)
            for value in (*(getattr(space, "__defaults__", None) or ()), *(getattr(space, "__kwdefaults__", None) or {}).values()):
                keep(value)

    def restore(self):
        for space, members in self.spaces:
            now = vars(space)
            for k in [k for k in now if k not in members and not k.startswith("__") and not isinstance(now[k], types.ModuleType)]:
                delattr(space, k)
            for k, v in members.items():
                if now.get(k) is not v:
                    setattr(space, k, v)
        for value, saved in self.contents:
            if isinstance(value, list):
                value[:] = saved
            elif len(value) != len(saved) or value != saved:
                value.clear()
                value.update(saved)
        for value in self.caches:
            value.cache_clear()


_cold = Cold()
restore = _cold.restore
