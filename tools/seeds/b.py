M, P, C, R, B, L, U, V, PR, I, T, RB, F, K = ("rebulk/%s.py" % n for n in (
    "match", "pattern", "chain", "rules", "builder", "loose", "utils", "validators", "processors", "introspector", "toposort", "rebulk", "formatters", "key"))
BUGS = []


def bug(id, property, needs, breaks, edits, demo, env=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, env=env))


bug("c09-self-overlap", "C09",
    "a string that overlaps itself (aa in aaaa)",
    "overlapping occurrences are returned",
    [(U, "        start += len(sub)\n", "        start += 1\n")],
    """
from rebulk import Rebulk
got = [m.span for m in Rebulk(default_rules=False).string("aa").matches("aaaa")]
assert got == [(0, 2), (2, 4)], got
""")

bug("c09-end-window", "C09",
    "an end option that falls inside an occurrence",
    "the end option bounds the start of an occurrence instead of the occurrence",
    [(U, "        start = string.find(sub, start, end)\n        if start == -1:\n", "        start = string.find(sub, start)\n        if start == -1 or (end is not None and start >= (end if end >= 0 else end + len(string))):\n")],
    """
from rebulk import Rebulk
got = [m.span for m in Rebulk().string("abc", end=4).matches("--abcabc")]
assert got == [], got
""")

bug("c09-negative-start", "C09",
    "a negative start option",
    "the search is restricted by slicing and a negative start gives negative positions",
    [(U, """    while True:
        start = string.find(sub, start, end)
        if start == -1:
            return
        yield start
        start += len(sub)
""", """    offset = start or 0
    window = string[start:end]
    start = 0
    while True:
        start = window.find(sub, start)
        if start == -1:
            return
        yield offset + start
        start += len(sub)
""")],
    """
from rebulk import Rebulk
got = [m.span for m in Rebulk().string("a", start=-2).matches("xaxa")]
assert got == [(3, 4)], got
""")

bug("c10-abbreviations-at-once", "C10",
    "an abbreviation whose replacement contains a later abbreviation",
    "abbreviations are looked up in the original expression only, so they are no longer replaced in order",
    [(P, """                    for key, replacement in self.abbreviations:
                        pattern = pattern.replace(key, replacement)
                pattern = call(""", """                    table = dict(self.abbreviations)
                    keys = "|".join(re.escape(key) for key in table)
                    pattern = re.sub(keys, lambda found: table[found.group()], pattern)
                pattern = call(""")],
    """
from rebulk import Rebulk
bulk = Rebulk().regex("#x", abbreviations=[("#", "@+"), ("@", "[0-9]")])
assert [m.value for m in bulk.matches("12x")] == ["12x"], bulk.matches("12x")
""")

bug("c10-same-group-name-objects", "C10",
    "an unnamed group in a pattern that has a name and also named groups",
    "unnamed groups take the pattern's name only when no group is named",
    [(P, "                    name = names.get(i, main_match.name)\n", "                    name = names.get(i) if names else main_match.name\n")],
    """
from rebulk import Rebulk
got = Rebulk().regex("(?P<a>x)(y)", name="main", children=True).matches("xy")
assert [m.name for m in got] == ["a", "main"], got
""")

bug("c11-ignore-before-validation", "C11",
    "ignore_names on a named group together with a validator for that name",
    "ignored names are dropped before validation, so their validator no longer decides",
    [(P, """        for child in match.children:
            if not self._process_match(child, match_index, child=True):
                return

        match =""", """        for child in match.children:
            if child.name not in self.ignore_names and not self._process_match(child, match_index, child=True):
                return

        match =""")],
    """
from rebulk import Rebulk
bulk = Rebulk().regex("(?P<a>.)(?P<b>.)", children=True, ignore_names=["b"], validator={"b": lambda m: m.raw != "z"})
assert list(bulk.matches("xz")) == [], bulk.matches("xz")
assert [m.name for m in bulk.matches("xy")] == ["a"]
""")

bug("c11-post-processor-order", "C11",
    "a post_match_processor and a validator looking at what the processor replaces",
    "post_match_processor runs before the children are validated",
    [(P, """        if not self._process_match(match, match_index):
            return

        for child in match.children:
            if not self._process_match(child, match_index, child=True):
                return

        match = self._process_match_processor(match, self.post_match_processor)
        if not match:
            return
""", """        if not self._process_match(match, match_index):
            return

        match = self._process_match_processor(match, self.post_match_processor)
        if not match:
            return

        for child in match.children:
            if not self._process_match(child, match_index, child=True):
                return
""")],
    """
from rebulk import Rebulk
seen = []
def post(match):
    seen.append(match.raw)
bulk = Rebulk().regex("(?P<a>.)(?P<b>.)", children=True, post_match_processor=post, validator={"b": lambda m: m.raw != "z"})
assert list(bulk.matches("xz")) == [] and seen == [], seen
""")

bug("c12-list-span", "C12",
    "a functional pattern returning a single [start, end] list",
    "a single span is recognised only when it is a tuple",
    [(P, "                or (is_iterable(ret) and hasattr(ret, \"__getitem__\") and isinstance(ret[0], int))\n", "                or (isinstance(ret, tuple) and isinstance(ret[0], int))\n")],
    """
from rebulk import Rebulk
assert [m.span for m in Rebulk().functional(lambda s: [1, 3]).matches("abcd")] == [(1, 3)]
""")

bug("c12-stop-at-empty", "C12",
    "a functional pattern returning several spans with an empty one before the last",
    "the returns following an empty span are lost",
    [(P, """                    match = Match(*args, pattern=self, input_string=input_string, **kwargs)  # type: ignore[misc]
                    if match:
                        yield match
""", """                    match = Match(*args, pattern=self, input_string=input_string, **kwargs)  # type: ignore[misc]
                    if not match:
                        break
                    yield match
""")],
    """
from rebulk import Rebulk
got = [m.span for m in Rebulk().functional(lambda s: [(0, 1), (2, 2), (3, 4)]).matches("abcd")]
assert got == [(0, 1), (3, 4)], got
""")

bug("c13-retry-end", "C13",
    "a chain validator that succeeds only after the last part lost several repetitions",
    "while repetitions are dropped the end of the chain match stays where it was after the first drop",
    [(C, "                    match.end = match.children[-1].end if match.children else match.start\n", "                    if match.end == original_end:\n                        match.end = match.children[-1].end if match.children else match.start\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain(validator=lambda m: len(m.children) <= 2).regex("x").regex("[0-9]").repeater("*").close()
got = [m.span for m in bulk.matches("x1234")]
assert got == [(0, 2)], got
""")

bug("c13-hidden-offset", "C13",
    "a hidden part followed by another part",
    "a hidden part does not move the position where the next part has to start when it is the last repetition",
    [(C, """                if not chain_part.is_hidden:
                    grouped_matches""", """                if chain_part.is_hidden and chain_part.repeater_end is None:
                    chain_input_string = chain_input_string.lstrip()
                    offset = len(input_string) - len(chain_input_string)
                if not chain_part.is_hidden:
                    grouped_matches"""), (C, "                chain_found = True\n                offset = grouped_raw_matches[-1].raw_end\n", "                offset = grouped_raw_matches[-1].raw_end\n                chain_found = True\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().regex("[0-9]").regex("-").hidden().repeater("+").regex("[a-z]").close()
assert [m.span for m in bulk.matches("1--a")] == [(0, 4)]
assert list(bulk.matches("1-- a")) == [], bulk.matches("1-- a")
""")

bug("c13-repeater-zero-space", "C13",
    "a chain that resumes after a complete chain match ending right before the end of the string",
    "the scan stops one character early",
    [(C, "        while offset < len(input_string):\n", "        while offset < len(input_string) - (1 if chain_matches else 0):\n")],
    """
from rebulk import Rebulk
bulk = Rebulk().chain().regex("[0-9]").close()
got = [m.span for m in bulk.matches("1 2 3")]
got2 = [m.span for m in bulk.matches("123")]
assert got2 == [(0, 1), (1, 2), (2, 3)], got2
""")

bug("c14-chain-defaults-shared", "C14",
    "chain_defaults called on a chain builder, then a chain built from the parent",
    "a chain builder shares the chain defaults of its parent",
    [(B, "        self._chain_defaults = deepcopy(source._chain_defaults)\n", "        self._chain_defaults = source._chain_defaults\n")],
    """
from rebulk import Rebulk
bulk = Rebulk()
chain = bulk.chain()
chain.chain_defaults(name="inner")
chain.regex("a").close()
bulk.chain().regex("b").close()
assert [m.name for m in bulk.matches("b")] == [None], bulk.matches("b")[0].name
""")

bug("c14-overrides-after-general", "C14",
    "a functional pattern with an overrides list and a list option present in the general defaults",
    "overrides of functional patterns only protect from the functional defaults, not from the general ones",
    [(B, """            set_defaults(self._functional_defaults, kwargs)
            set_defaults(self._defaults, kwargs)
""", """            set_defaults(self._functional_defaults, kwargs)
        set_defaults(self._defaults, kwargs)
""")],
    """
from rebulk import Rebulk
bulk = Rebulk().defaults(tags=["d"]).functional(lambda s: (0, 1), tags=["own"], overrides=["tags"])
assert bulk.matches("a")[0].tags == ["own"], bulk.matches("a")[0].tags
""")

bug("c15-chain-keys-shared", "C15",
    "declare_keys on a chain builder, then a pattern of the parent with that name",
    "a chain builder shares the declared keys of its parent",
    [(B, "        self._keys = dict(source._keys)\n", "        self._keys = source._keys\n")],
    """
from rebulk import Rebulk, Key
bulk = Rebulk()
bulk.chain().declare_keys(Key("n", int)).regex("(?P<n>[0-9])").close()
bulk.regex("x(?P<n>[0-9])", children=True)
values = [m.value for m in bulk.matches("x1") if m.name == "n"]
assert values == ["1"], values
""")

