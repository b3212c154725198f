"""C16: to_dict and to(model) on every small list of matches, every option combination and several models."""
from __future__ import annotations

import copy
import dataclasses
import itertools
from dataclasses import dataclass, field
from typing import Annotated, Any, ClassVar, Generic, List, NotRequired, Optional, Required, TypedDict, TypeVar, Union, is_typeddict

from rebulk import Key
from rebulk.match import Match, Matches

from .core import Family
from .lookups import coherent
from .sizes import sizes

ASSUMPTIONS = [
    "how a list value is merged with further values of its name by to_dict is not judged (only that nothing is modified, and that matches and values_list are complete)",
    "a required scalar field without match is the dataclass constructor's error",
]
T = TypeVar("T")
TEXT = "abcd"
SPANS = [(0, 1), (1, 3), (2, 4), (1, 2)]
NAMES = [None, "x", "y", "t"]
VALUES = [None, "v", "a", 1, True, "=0", "=empty"]
# values made by a formatter (a falsy literal is no value)
FORMATTED = {"=0": 0, "=empty": "", "=False": False, "=none": None, "=nothing": []}
LISTS = [["v"], ["a", "v"], ["v", "v"]]


def make(spec):
    (start, end), name, value = spec
    if isinstance(value, str) and value in FORMATTED:
        return Match(start, end, name=name, formatter=lambda s: copy.copy(FORMATTED[value]), input_string=TEXT, tags=["t"])
    return Match(start, end, name=name, value=copy.deepcopy(value), input_string=TEXT, tags=["t"])


def value_of(spec):
    (start, end), _, value = spec
    if isinstance(value, str) and value in FORMATTED:
        return FORMATTED[value]
    return value if value else TEXT[start:end]


def distinct(items, eq=lambda a, b: a == b):
    out = []
    for x in items:
        if not any(eq(o, x) for o in out):
            out.append(x)
    return out


def shot(c):
    return [(id(m), m.span, m.name, m.value, list(m.tags), m.parent) for m in c]


def dict_run(ctx, case):
    specs, warm = case
    c = Matches([make(s) for s in specs], input_string=TEXT)
    if warm:
        c.named("x"), c.starting(0), c.at_index(1), c.names
    before = copy.deepcopy(shot(c))
    order = sorted(range(len(specs)), key=lambda i: specs[i][0])
    names = distinct([specs[i][1] for i in order])
    has_list = any(isinstance(s[2], list) for s in specs)
    for details, first_value, enforce_list in itertools.product((False, True), repeat=3):
        what = lambda: f"{specs} details={details} first_value={first_value} enforce_list={enforce_list}"
        d = c.to_dict(details=details, first_value=first_value, enforce_list=enforce_list)
        ctx.ran()
        ctx.eq(list(d), names, lambda: what() + ": names")
        for name in names:
            mine = [i for i in order if specs[i][1] == name]
            ctx.eq([id(m) for m in d.matches[name]], [id(c[i]) for i in mine], lambda: what() + ": matches")
            values = [c[i] if details else value_of(specs[i]) for i in mine]
            once = distinct(values)
            if not enforce_list:
                ctx.eq(d.values_list[name], once, lambda: what() + ": values_list")
            if details or not any(isinstance(v, list) for v in values):
                kept = once[:1] if first_value else once
                want = kept if enforce_list or len(kept) > 1 else kept[0]
                ctx.eq((type(d[name]), d[name]), (type(want), want), lambda: what() + f": {name}")
                if details:
                    ctx.eq([id(m) for m in (d[name] if isinstance(d[name], list) else [d[name]])], [id(m) for m in kept], lambda: what())
            elif len(values) == 1:
                ctx.eq(d[name], values[0], lambda: what() + f": {name}")
        # using the result changes nothing
        for v in list(d.values()) + list(d.matches.values()) + list(d.values_list.values()):
            if isinstance(v, list) and not any(m.value is v for m in c):
                v.append("mine")
        if not details:
            ctx.eq([(s[0], s[1], s[3]) for s in shot(c)], [(s[0], s[1], s[3]) for s in before], lambda: what() + ": the matches afterwards")
    ctx.eq(shot(c), before, lambda: f"{specs}: the matches afterwards")
    if has_list or warm:
        coherent(ctx, c, ["x", "y"], ["t"], 4, f"{specs}")
    ctx.state((names, len(specs)))


def dict_cases(tier):
    pool = [(s, n, v) for s in SPANS for n in NAMES[:3] for v in VALUES]
    lists = [(s, n, v) for s in SPANS[:2] for n in ("x", None) for v in LISTS + [None, "v"]]
    for k in (0, 1, 2):
        for combo in itertools.product(pool, repeat=k):
            yield combo, k % 2 == 0
    small = pool if tier == "thorough" else [p for p in pool if p[0] != (0, 1) and p[1] != "y" and p[2] not in ("a", True) or p[2] == 1 and p[1] == "y"]
    for combo in itertools.product(small, repeat=3):
        yield combo, False
    falsy = [(s, n, v) for s in SPANS[:2] for n in ("x", None) for v in ["v", "=0", "=empty", "=False", "=none"]]
    for combo in itertools.product(falsy, repeat=3):
        yield combo, False
    for k in (1, 2, 3):
        for combo in itertools.product(lists, repeat=k):
            yield combo, False
    if tier == "thorough":
        tiny = [(s, n, v) for s in SPANS for n in ("x", None) for v in (None, "v")]
        for combo in itertools.product(tiny, repeat=5):
            yield combo, False


# -- models -------------------------------------------------------------------------------------
@dataclass
class Scalars:
    x: str = "dx"
    y: Optional[int] = None


@dataclass
class Lists:
    x: list[str]
    y: list[int] = field(default_factory=list)
    t: "str | None" = "dt"


@dataclass
class Needs:
    x: Any


@dataclass(frozen=True)
class Post:
    x: str = "dx"
    seen: list[str] = field(default_factory=list)

    def __post_init__(self):
        self.seen.append(self.x)


@dataclass
class Others:  # only list[...] itself is a list field
    x: Optional[list[str]] = None
    y: list = None  # type: ignore[assignment,type-arg]
    t: Union[int, list[int], tuple[str, ...]] = 0


@dataclass
class Computed:  # a field made by the class itself
    x: str = "dx"
    y: str = field(init=False, default="own")
    t: list[str] = field(init=False)

    def __post_init__(self):
        self.t = [self.x]


@dataclass
class Noted:
    x: Annotated[list[str], "noted"]
    y: Annotated[str, "noted"] = "dy"
    t: "Annotated[List[str], 1, 2]" = field(default_factory=list)


class Typed(TypedDict):
    x: str
    y: list[int]


class Partial(TypedDict, total=False):
    t: int
    x: list[str]


class Inherited(Partial):
    y: str


@dataclass
class Child(Lists):  # fields of the class it inherits from, one of them given another default
    z: list[str] = field(default_factory=list)
    t: "str | None" = "ct"


@dataclass(kw_only=True, slots=True)
class GrandChild(Child):
    x: str = "gx"  # type: ignore[assignment]


class Mixin:
    def shout(self):
        return "mixed in"


@dataclass(order=True)
class Keyworded(Mixin, Scalars):
    _: dataclasses.KW_ONLY
    t: List[str] = field(default_factory=list)
    n: ClassVar[list[str]] = []


class Plainly(Lists):  # inherits everything, declares nothing
    pass


class Needed(Typed):
    t: NotRequired[list[str]]
    z: NotRequired[str]


class Annotations(TypedDict, total=False):
    x: "Annotated[list[str], 'noted']"
    y: Annotated[str, "noted"]
    t: Required["list[Any]"]


class Generic_(TypedDict, Generic[T]):
    x: list[T]


MODELS = {"Noted": Noted, "Computed": Computed, "Needed": Needed, "Annotations": Annotations, "Generic_": Generic_, "Child": Child, "GrandChild": GrandChild, "Keyworded": Keyworded, "Plainly": Plainly, "Scalars": Scalars, "Lists": Lists, "Needs": Needs, "Post": Post, "Others": Others, "Typed": Typed, "Partial": Partial, "Inherited": Inherited}
# field -> (is a list field, default or MISSING)
SHAPES = {
    "Noted": {"x": (True, None), "y": (False, "dy"), "t": (True, None)},
    "Computed": {"x": (False, "dx")},
    "Needed": {"x": (False, dataclasses.MISSING), "y": (True, None), "t": (True, None), "z": (False, dataclasses.MISSING)},
    "Annotations": {"x": (True, None), "y": (False, dataclasses.MISSING), "t": (True, None)},
    "Generic_": {"x": (True, None)},
    "Child": {"x": (True, None), "y": (True, None), "t": (False, "ct"), "z": (True, None)},
    "GrandChild": {"x": (False, "gx"), "y": (True, None), "t": (False, "ct"), "z": (True, None)},
    "Keyworded": {"x": (False, "dx"), "y": (False, None), "t": (True, None)},
    "Plainly": {"x": (True, None), "y": (True, None), "t": (False, "dt")},
    "Scalars": {"x": (False, "dx"), "y": (False, None)},
    "Lists": {"x": (True, None), "y": (True, None), "t": (False, "dt")},
    "Needs": {"x": (False, dataclasses.MISSING)},
    "Post": {"x": (False, "dx")},
    "Others": {"x": (False, None), "y": (False, None), "t": (False, 0)},
    "Typed": {"x": (False, dataclasses.MISSING), "y": (True, None)},
    "Partial": {"t": (False, dataclasses.MISSING), "x": (True, None)},
    "Inherited": {"t": (False, dataclasses.MISSING), "x": (True, None), "y": (False, dataclasses.MISSING)},
}


def to_run(ctx, case):
    specs = case
    c = Matches([make(s) for s in specs], input_string=TEXT)
    before = copy.deepcopy(shot(c))
    for name, model in MODELS.items():
        want, missing = {}, False
        for f, (is_list, default) in SHAPES[name].items():
            values = [value_of(s) for s in specs if s[1] == f]
            if is_list:
                want[f] = values
            elif values:
                want[f] = values[0]
            elif default is not dataclasses.MISSING:
                want[f] = default
            else:
                missing = True
        if name == "Needs" and missing:
            ctx.raises(TypeError, lambda: c.to(model), f"{specs} to {name}")
            continue
        got = c.to(model)
        ctx.ran()
        if is_typeddict(model):
            ctx.eq((type(got), got), (dict, want), lambda: f"{specs} to {name}")
        else:
            ctx.ok(type(got) is model, lambda: f"{specs} to {name}: {type(got)}")
            ctx.eq({f: getattr(got, f) for f in want}, want, lambda: f"{specs} to {name}")
            if name == "Computed":
                ctx.eq((got.y, got.t), ("own", [want["x"]]), lambda: f"{specs} to {name}")
            if name == "Post":
                ctx.eq(got.seen, [want["x"]], "__post_init__")
        for f, (is_list, _) in SHAPES[name].items():
            if is_list:
                (got[f] if isinstance(got, dict) else getattr(got, f)).append("mine")
    values = [value_of(s) for s in specs]
    for t in (list[str], list[int], list[Any]):
        got = c.to(t)
        ctx.eq(got, values, lambda: f"{specs} to {t}")
        got.append("mine")
    for t in (int, str, float, object):
        if values:
            ctx.eq(c.to(t), values[0], lambda: f"{specs} to {t}")
        else:
            ctx.raises(LookupError, lambda: c.to(t), f"empty to {t}")
    for t in (list[Scalars], list[Typed], 3, "x"):
        ctx.raises(TypeError, lambda: c.to(t), f"to {t}")
    ctx.eq(shot(c), before, lambda: f"{specs}: the matches afterwards")
    coherent(ctx, c, ["x", "y"], ["t"], 4, f"{specs}")
    ctx.state(([s[1] for s in specs], values))


def to_cases(tier):
    pool = [(s, n, v) for s in SPANS[:3] for n in NAMES for v in (None, "v", 1, "=0", "=empty", "=none")]
    for k in (0, 1, 2):
        yield from itertools.product(pool, repeat=k)
    small = pool if tier == "thorough" else [p for p in pool if p[2] in (None, 1, "=0") and p[0] != (2, 4)]
    yield from itertools.product(small, repeat=3)


# -- contradictions with declared keys -------------------------------------------------------------
class Base:
    pass


class Sub(Base):
    pass


# annotation -> element type (None: not a single type, never contradicts)
HINTS = {
    "int": (int, int), "str": (str, str), "bool": (bool, bool), "object": (object, object), "Base": (Base, Base), "Sub": (Sub, Sub), "Any": (Any, None),
    "list[int]": (list[int], int), "list[str]": (list[str], str), "list[Sub]": (list[Sub], Sub), "list[Any]": (list[Any], None), "list": (list, None), "dict": (dict, None), "tuple": (tuple, None), "dict[str,int]": (dict[str, int], None),
    "int|None": (int | None, int), "Optional[str]": (Optional[str], str), "Optional[Base]": (Optional[Base], Base), "int|str": (int | str, None), "Union[int,str,None]": (Union[int, str, None], None),
    "Annotated[int]": (Annotated[int, 1], int), "Annotated[list[str]]": (Annotated[list[str], "n"], str), "list[Annotated[int]]": (list[Annotated[int, 1]], int), "list[int|None]": (list[int | None], int), "list[int]|None": (list[int] | None, int), "list[int|str]": (list[int | str], None),
}
DECLARED = {"int": int, "str": str, "bool": bool, "object": object, "Base": Base, "Sub": Sub}


def hint_run(ctx, case):
    kind, fields, declared, specs = case
    hints = {f: HINTS[h][0] for f, h in fields}
    if kind == "dataclass":
        model = dataclasses.make_dataclass("Model", [(f, t, field(default=None)) for f, t in hints.items()])
    else:
        model = TypedDict("Model", hints)
    c = Matches([make(s) for s in specs], input_string=TEXT)
    c.declared_keys = {n: Key(n, DECLARED[t]) for n, t in declared}
    want = False
    for f, h in fields:
        element = HINTS[h][1]
        for n, t in declared:
            if n == f and element is not None:
                want = want or not (issubclass(element, DECLARED[t]) or issubclass(DECLARED[t], element))
    ctx.ran()
    if want:
        ctx.raises(TypeError, lambda: c.to(model), f"{case}")
    else:
        c.to(model)
        # the declared keys do not matter otherwise
        c.to(int) if specs else None
        c.to(list[str])
    ctx.state(case[:3])


def hint_cases(tier):
    specs = (((0, 1), "x", None),)
    for kind in ("dataclass", "TypedDict"):
        for h in HINTS:
            for t in DECLARED:
                for items in ((), specs):
                    yield kind, (("x", h),), (("x", t),), items
                    yield kind, (("y", h),), (("x", t),), items
        some = list(HINTS) if tier == "thorough" else ["int", "list[str]", "Optional[Base]", "Any", "int|str"]
        for h1, h2 in itertools.product(some, repeat=2):
            for t1, t2 in itertools.product(DECLARED, repeat=2):
                yield kind, (("x", h1), ("y", h2)), (("x", t1), ("y", t2)), specs
                yield kind, (("x", h1), ("y", h2)), (("y", t1), ("z", t2)), specs


def families():
    return [
        Family("to_dict", dict_cases, dict_run, "every list of up to 3 matches over 4 spans x 3 names x 5 values (thorough: all, and lists of 5 over a smaller pool; list values separately) x 8 option combinations"),
        Family("models", to_cases, to_run, "every list of up to 3 matches over spans x 4 names x values x 15 models, list[...] and plain types"),
        Family("declared", hint_cases, hint_run, "dataclass/TypedDict fields: 26 annotations x 6 declared types, one or two fields"),
        sizes("C16"),
    ]
