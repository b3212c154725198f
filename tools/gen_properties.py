"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
M="rebulk/match.py"; PT="rebulk/pattern.py"; CH="rebulk/chain.py"; RU="rebulk/rules.py"; PR="rebulk/processors.py"; RB="rebulk/rebulk.py"; BU="rebulk/builder.py"; LO="rebulk/loose.py"; UT="rebulk/utils.py"; U_T="rebulk/toposort.py"

p("C01","Match collections answer every lookup from their current contents",
 """Whatever sequence of edits (append, extend, insert, remove, pop, del, item and slice assignment, reverse, clear) and lookups a Matches or
 Markers collection has been through, every lookup (named, tagged, starting, ending, at_index, at_span, previous, next, range, names, tags, max_end, key access, indexing, slicing)
 answers exactly as a collection freshly built from the same matches in the same order. Edits change the list as they would a plain list, and one rejected for its kind
 (a marker put into Matches, a non-marker into Markers) leaves the collection as it was. Lookups never change what later lookups answer, and the caller may modify a list
 returned by one without affecting the collection.""",
 ["histories"],"every history of edits and lookups over a small pool of matches (same span, overlapping, nested, named/unnamed, tagged, value-equal twins), on Matches and on Markers",
 "Unit tests try a handful of single edits on cold or warm lookup tables; staleness needs a particular interleaving of lookups (which build a table) and edits (which must maintain it).",
 [M],[("incremental maintenance of the five lookup tables","_BaseMatches._add_match/_remove_match/__setitem__/__delitem__/insert"),("lazy construction","_BaseMatches._name_dict.._index_dict")],
 [("name/tag/start/end/index tables","lazily built, must mirror the list",M),("max end","largest end of any match, used to bound scans",M)],["Matches/Markers public methods"])

p("C02","Positional queries return exactly what their definition says",
 """For any list of matches at any non-empty spans: next/previous give the nearest group of matches starting after the given match's start / ending at or before it, range(start, end) with start < end gives in span order
 the matches intersecting [start, end), at_index those covering the position, at_span those covering the first or the last position of the span, conflicting every other match sharing a position with the given one,
 and chain_before/chain_after the matches met by walking from a position over matches (those satisfying the predicate) and separator characters until the first uncovered non-separator.
 holes(start, end) gives exactly the maximal runs of positions of [start, end) not covered by any non-ignored match, never an empty one; with separators, holes still contain every uncovered
 non-separator position, never a covered one, and never a separator after their first position. The predicate and index arguments filter the result of each query and then pick from it (None when out of range).""",
 ["inputs"],"every multiset of up to 3 (thorough 4) spans over a short string, every query argument, with and without input string, separators, ignore, predicate and index",
 "Tests check a few hand-picked layouts; adjacency, nesting, equal starts and boundary arguments are a combinatorial space.",
 [M,LO],[("interval queries","_BaseMatches.previous/next/range/holes/conflicting/at_*/chain_*"),("filter_index",LO)],[],["Matches public queries"])

p("C03","Conflict resolution keeps exactly the longest overlapping matches",
 """With the default rules and matches that come from string, functional or childless regex patterns, a non-private match is in the result exactly when no strictly longer non-private match overlaps it, so two returned overlapping
 matches always have the same length. Children are judged by the length of their outermost parent. A match's conflict_solver(match, conflicting) decides the overlaps it takes part in: what it returns is removed, '__default__' falls back to the
 default, and nothing is removed that no solver designated.""",
 ["inputs","configurations"],"every multiset of up to 4 (thorough 5) spans over a short string in every pattern registration order, with private twins, and every small solver behaviour table for 2-3 matches",
 "Tests sample a few overlaps; chains of partial overlaps, equal lengths, duplicates and private matches interact.",
 [PR,M,RU],[("ConflictSolver.when",PR),("RemoveMatch",RU),("conflicting",M)],[],["Rebulk.matches"])

p("C04","Private matches never leak and markers stay apart",
 """Rebulk.matches (with the default rules) never returns a match flagged private, whatever made it private (private, private_parent, private_children, private_names) and whatever public matches equal it, while private matches are visible
 to rules that run before the final removal. Removing private matches never removes a public match, and a private match never causes a public one to be removed as a conflict. Marker matches are never in the returned sequence, are all in its markers sequence, and
 neither remove nor are removed by ordinary matches.""",
 ["inputs","configurations"],"every combination of up to 3 patterns with private/marker/children options matching equal, overlapping or disjoint text",
 "Tests use one private or marker pattern at a time; leaks need value-equal public/private twins or option combinations.",
 [PR,RU,PT,RB],[("PrivateRemover",PR),("RemoveMatch",RU),("_process_match_private",PT),("_matches_patterns",RB)],[],["Rebulk.matches, Matches.markers"])

p("C05","Rules run by priority, then dependency, then registration order",
 """For any set of rules, execution runs each enabled rule exactly once: higher priority first; within one priority every rule after the rules of that priority it depends on (given as class, instance or iterable of them, dependencies elsewhere or absent being
 ignored), in successive levels; within a level in registration order. A disabled rule (enabled(context) false) neither checks nor acts; a rule acts exactly when its condition returned something truthy, with that response, and sees the effects of the rules run before it; the executed rules are
 returned in execution order with their response. Cyclic dependencies and two rules of one class at the same priority are rejected with an error.""",
 ["configurations"],"every assignment of priorities, dependency graphs, enabled flags and responses to up to 3 rules (thorough 4), in every registration order",
 "Tests use two or three fixed rule sets.",
 [RU,"rebulk/toposort.py"],[("Rules.execute_all_rules",RU),("toposort_rules",RU),("toposort","rebulk/toposort.py")],[],["Rules.execute_all_rules, Rebulk.matches"])

p("C06","Rule consequences change exactly the designated matches",
 """RemoveMatch removes exactly the designated matches that are present, AppendMatch adds exactly those for which no equal match is present (renaming what it adds when given a name), RenameMatch / AppendTags / RemoveTags affect exactly
 the designated matches that are present, keep every other match (a renamed match that becomes equal to another one may be merged with it), and leave every lookup coherent with the new names and tags. Tags changed on one match are never changed on another match, on the pattern, or in a later call, and a consequence given as a list applies element by element to the list of responses.
 A single match and an iterable of matches are handled alike.""",
 ["histories","inputs"],"every sequence of up to 2 (thorough 3) consequences on every small subset (single, list, generator, absent, value-equal twins) of up to 3 matches, interleaved with lookups",
 "Tests apply each consequence once to cold collections; sharing and stale lookups need sequences.",
 [RU,M],[("Remove/Append/Rename/AppendTags/RemoveTags",RU),("tags ownership","Match.__init__")],[],["Consequence.then, Matches lookups"])

p("C07","A matches() call depends only on its configuration and arguments",
 """Calling matches on a configured Rebulk any number of times with any strings and contexts, in any order, gives each time the same result as a freshly configured Rebulk given the same string and context: no call, and no modification of the matches, tags or collections it returned, or of values made by formatters, influences a later call.
 A call does not modify the arguments objects used at configuration time (tag lists, option dicts, formatter dicts, pattern dicts), the dicts or lists functional patterns return, nor the context.""",
 ["histories"],"every sequence of up to 3 (thorough 4) calls/modifications over several configurations and strings",
 "Tests build a new Rebulk per assertion, so leakage between calls is never observed.",
 [RB,PT,CH,RU],[("per-call Matches","Rebulk.matches"),("per-match state","Match.__init__"),("_match implementations",PT)],[("tags, formatter dicts, options dicts","objects shared between configuration and matches",PT)],["Rebulk.matches"])

p("C08","One Rebulk can serve several threads at once",
 """A configured Rebulk may be used by several threads at the same time: whatever the interleaving, each matches() call returns what it would return alone.""",
 ["schedules"],"all interleavings of two threads at line granularity up to 1 preemption (thorough 2) for several configurations (strings, regexes with children, functional, chains, rules, private, markers, child rebulks)",
 "The suite is single threaded.",
 [RB,PT,CH,RU,M],[("no call state on shared pattern, chain, rule objects","all")],[],["Rebulk.matches"])

p("C09","String patterns find exactly the occurrences str.find would",
 """A string pattern yields, for each of its strings in order, exactly the left-to-right non-overlapping occurrences in the input (with ignore_case: positions where the text equals it case-insensitively character by character), each with the exact span of that occurrence and, as default value, exactly the text at it.
 start and end options restrict the search as they do in str.find, an empty string matches nothing, and the search always terminates.""",
 ["inputs"],"every text up to length 6 (thorough 8) and pattern up to length 3 (thorough 4) over a tiny alphabet including self-overlaps, upper/lower case and characters whose lower case is longer, and every start/end",
 "Tests use a few English sentences; self-overlap, boundaries, empty strings and special casing are input-shape corners.",
 [UT,PT],[("find_all",UT),("StringPattern._match",PT)],[],["StringPattern.matches, Rebulk.string, find_all"])

p("C10","Regex patterns mirror finditer and groups",
 """A regex pattern yields one match per non-empty finditer result, in order, with that span; its children are exactly the participating non-empty groups in group order, each with the group's span, the group's name (the pattern's name for an unnamed group) and the parent set.
 Pattern forms (string with flags, (pattern, flags) tuple, keyword dict, compiled object, abbreviations replaced in order in the string and dict forms) are equivalent to compiling the expression they denote.
 children=True returns the children, every=True both, otherwise the parent.""",
 ["inputs"],"every regex from a small generated grammar (up to two groups: optional, alternated, nested, empty, named) against every text up to length 4 (thorough 5) over a small alphabet, and every pattern form",
 "Tests use a few group layouts; optional, empty, nested and alternated groups interact with indices.",
 [PT],[("RePattern._match, __init__",PT)],[],["RePattern.matches"])

p("C11","Pattern options produce exactly the documented matches",
 """For any combination of options, what a pattern returns is what the documentation says: the most specific of the value, formatter and validator entries (match name, then __parent__/__children__, then the default) applies; a failing validator on the parent or any considered child drops the whole match; validate_all and format_all extend validation and formatting to matches not returned;
 children, every, private_parent and private_children select what is returned and what is private; private_names and ignore_names act on named matches after validation. pre_match_processor and post_match_processor can replace a match or, by returning False, drop it, the former before and the latter after validation,
 and post_processor replaces the output list.""",
 ["configurations","inputs"],"every combination of up to 3 (thorough 4) non-default options (each with 2-8 alternatives) on patterns with named, unnamed and no groups",
 "Each option has a test of its own; pairs and triples of options are untested.",
 [PT],[("Pattern._process_matches and helpers",PT)],[],["Pattern.matches"])

p("C12","Functional patterns accept every documented return shape",
 """A functional pattern may return nothing, one (start, end[, options]) tuple or list, one dict of match options, or a list, tuple or generator of those; each form gives the same matches as the equivalent explicit spans, in the order returned, skipping empty ones, with the name, tags, private, marker and value of the individual return overriding the pattern's.
 Functions, methods and callable objects are called with as much of (string, context) and, by keyword, of the pattern's options as their signature accepts.""",
 ["inputs"],"every return value built from a small grammar up to 3 items, and every function signature shape up to 3 positional parameters with/without *args, **kwargs and named options",
 "Tests use four return shapes and a few signatures.",
 [PT,LO],[("FunctionalPattern._match",PT),("call/function_args",LO)],[],["FunctionalPattern.matches, loose.call"])

p("C13","Chains match exactly the contiguous sequences their parts describe",
 """For a chain whose first part is mandatory, scanning goes from left to right: each chain match starts at the first occurrence of the first part (its occurrences being non-overlapping) from which every part in order is found with no gap between consecutive repetitions or parts, each part taking as many repetitions as available up to its maximum (no backtracking) and at least its minimum; scanning then resumes after it, and after a failed attempt it resumes right after the first repetition found by that attempt, so a failed attempt never hides or distorts a later match.
 The chain match spans from the first to the last visible repetition (there is none without visible repetition); its children are, for each visible repetition in order, what its part returns of it (by default its groups and then the part match; nothing to return does not end the repetitions), all with spans relative to the whole input and values equal to the text there, parts may be chains themselves, contributing once each match they return and the groups and parts of it. Repeaters count as in a regular expression ({n}: exactly n times); hidden parts must be present but contribute no children; chain_breaker rejects a repetition; a chain validator that fails is retried after dropping the last part's repetitions from the end.""",
 ["inputs","configurations"],"every chain of up to 3 parts with repeaters 1, 2, {2}, ?, *, +, {1,2} (and hidden parts, breakers, validators, nested children) over every text up to length 6 (thorough 7) of a tiny alphabet",
 "Tests follow a few episode-numbering examples; failures part-way and repeated starts need specific inputs.",
 [CH,BU],[("Chain._match/_to_next_chain_part/_process_match/_build_chain_match",CH),("ChainPart.matches/repeater",CH)],[("offset and remaining input of the scan","must move together",CH)],["Rebulk.chain"])

p("C14","Builder defaults reach exactly the patterns they are meant for",
 """A pattern's effective option is the one given explicitly, else the type-specific default (regex, string, functional, chain), else the general default, where list options are concatenated and dict options merged with the more specific entry winning, an option named in overrides keeps exactly its explicit value, later defaults calls replace earlier ones for the options they set, and reset() forgets them all, leaving what was already built or registered as it is.
 Defaults affect only patterns built after them and of their type, and setting or using defaults never modifies the objects the caller passed nor previously built patterns or other builders; a chain builder inherits its parent's defaults at creation and changes to either do not affect the other.""",
 ["histories","configurations"],"every sequence of up to 3 (thorough 4) defaults/build calls over scalar, list and dict options, on a builder and a chain builder",
 "Tests set each kind of default once.",
 [BU,LO],[("build_*/defaults/overrides",BU),("set_defaults",LO)],[],["observable through the matches of the built patterns"])

p("C15","Typed keys convert, look up and enforce consistently",
 """With key= or declare_keys, a match named after a key has the value produced by, in order of precedence, the pattern's own formatter for that name (explicit, else from key= given as a list, else from the defaults), the pattern's own single formatter (explicit, else the single key passed, else from the defaults), then the converter of the declared key (its formatter, else its type; the last declaration of that name made before the pattern was built);
 a list of keys together with a single formatter is rejected with TypeError, and a chain builder has the keys its parent had when it was created plus its own.
 matches[key] is the value of the first match of that name (or None) and matches.all(key) all of them in order. With the declared-key check enabled, matches() raises TypeError exactly when some public, non-literal, non-None value of a match produced by a pattern under a declared name is not an instance of the declared type, and declared keys (including those of enabled child rebulks, the parent's winning; none when the Rebulk is disabled) are carried on the result.""",
 ["configurations","inputs"],"every combination of key passing, declarations, explicit formatters and names over small patterns",
 "Tests cover each precedence pair once, not combinations across defaults, chains and child rebulks.",
 ["rebulk/key.py",BU,M,RB],[("_apply_key/_inherit_keys",BU),("check_declared_keys",M),("effective_keys",RB)],[],["Matches[Key], Matches.all, Rebulk.matches"])

p("C16","Conversions to dict and typed models lose and invent nothing",
 """to_dict maps each match name, in span order, to its distinct values in span order (a bare value when there is one, a list when several or with enforce_list, the first only with first_value, Match objects with details); its matches give every match per name and, without enforce_list, its values_list every distinct value; and neither it nor using its result changes any match or collection (how several values that are themselves lists are combined is left open).
 to(model) fills each dataclass or TypedDict field from the matches of that name (all values in match order, possibly none, for list fields, the first otherwise), leaves other fields without matches to their default or absent, returns all values for list[...] and the first value for a plain type (LookupError when empty), rejects list[...] of a dataclass or TypedDict, and raises TypeError when a field's element type (that of list[X], Optional[X] or X itself) is unrelated by subclassing to the type of the declared key of that name, and only then.""",
 ["inputs"],"every list of up to 3 (thorough 4) matches over small name/value/span domains (including list values and equal values) times every option combination and several models",
 "Tests use one or two sample collections.",
 [M],[("to_dict",M),("to",M)],[],["Matches.to_dict, Matches.to"])

p("C17","crop and split partition the text and leave the match alone",
 """match.crop(...) returns non-empty copies of the match whose spans together cover exactly the positions of the match outside all crops, without overlap; match.split(seps) returns copies covering exactly the maximal separator-free runs of the match's text, in order.
 Copies keep the match's name, tags, formatter and input, their raw text and default value are the text at their span, and the match itself (and its collection) is unchanged.""",
 ["inputs"],"every match span and every list of up to 2 (thorough 3) crop spans over a short string; every text up to length 6 over a letter/separator alphabet for split",
 "Tests crop a few spans.",
 [M],[("Match.crop",M),("Match.split",M)],[],["Match.crop, Match.split"])

p("C18","Child rebulks compose and disabling is exact",
 """A Rebulk with child rebulks behaves as one Rebulk holding its own and its enabled children's patterns (in registration order), rules and declared keys, and so on with the children's own children. A disabled Rebulk yields nothing; a disabled child, pattern or rule contributes nothing and everything else is unaffected; disabled may be a constant or a function, which is given the context of the call.
 A rule class contributed both by parent and child, or by two children, runs once; a child stays usable on its own, and defaults of one never reach patterns of the other.""",
 ["configurations"],"every composition of up to 3 rebulks (a parent, children, children of children) with every assignment of disabled flags/predicates and contexts",
 "Tests use single-flag cases.",
 [RB,PT,RU],[("effective_patterns/effective_rules/effective_keys",RB),("disabled",PT)],[],["Rebulk.matches"])

p("C19","The regex module backend gives the same results as re",
 """For expressions both backends interpret alike, enabling the regex module (REBULK_REGEX_ENABLED) without repeated captures gives the same matches, children, names and values as the standard re module; with repeated captures, the children of a group are all its captures, in order, the last one being the one the re backend reports.""",
 ["configurations","inputs"],"every generated expression of the C10 grammar and every short text, in both backends",
 "The suite is run with one backend at a time.",
 ["rebulk/remodule.py",PT],[("backend switch","rebulk/remodule.py"),("RePattern._match spans",PT)],[],["Rebulk.regex"])

p("C20","Topological sort is a correct layering of any graph",
 """For every dependency mapping, toposort yields disjoint levels containing every item exactly once, each item in the earliest level after all the items it depends on (self-dependencies ignored, items only mentioned as dependencies included), raises CyclicDependency exactly when there is a cycle, and never modifies its input; toposort_flatten is the concatenation of the sorted levels.""",
 ["inputs"],"every directed graph on up to 4 labelled nodes with every subset present as keys",
 "Tests use a few graphs.",
 ["rebulk/toposort.py"],[("toposort","rebulk/toposort.py")],[],["toposort, toposort_flatten"])

p("C21","Introspection and key checks are sound",
 """For string, regex and functional patterns that do not rename matches in code, every named public match a Rebulk can return has its name listed by introspect(rebulk, context).properties, whose context is empty by default (with the values given under that name, or the pattern's single value for its own name), declared properties of patterns and rules are listed, and disabled children are left out; check_keys lists exactly the declared key names that no pattern name, group name, declared property or chain part of the rebulk and its children can produce and that are not allowed.""",
 ["configurations"],"every combination of up to 2 patterns from a menu (names, groups, values, properties, private, marker, children) on parent and child rebulks",
 "Tests introspect a few fixed configurations.",
 ["rebulk/introspector.py",RB],[("PatternDescription/Introspection","rebulk/introspector.py"),("check_keys",RB)],[],["introspect, Rebulk.check_keys"])

p("C22","Match equality, hashing and ordering are lawful",
 """Over any matches, equality is exactly equality of span, value, name and parent, is an equivalence and the negation of inequality, and equal matches have equal hashes; a match's hash does not change when its value, name or tags change. Comparison orders by span and is a total preorder consistent for <, <=, > and >=, and comparison with other objects is not supported.
 Length, raw text, value (literal, else formatted raw text, else raw text), initiator, names, named and tagged agree with the match's definition.""",
 ["inputs"],"all triples over a pool of matches varying span, value, name, parent, tags, formatter, children",
 "Tests compare a few pairs.",
 [M],[("Match dunder methods",M)],[],["Match operators"])

p("C23","Everything matches() returns is well formed",
 """For any configuration and string, matches() terminates and every returned match and marker (and all their children, recursively) has 0 <= start < end <= len(string), carries the whole input string, has raw text equal to the slice at its span, and holds no child twice, following the parents of each child leading to the match holding it; the result carries the input string, and the returned sequence is, apart from what rules change, the concatenation in registration order of what each pattern returns.""",
 ["inputs","configurations"],"every combination of up to 2 patterns from a menu covering every pattern kind and option family against every short text",
 "Tests look at chosen fields of chosen results.",
 [RB,PT,CH,M],[("all _match implementations",PT),("Chain._fix_matches_offset",CH)],[],["Rebulk.matches"])

p("C24","User callbacks may fail or re-enter without corrupting a Rebulk",
 """If any user callback (validator, formatter, value conversion, functional pattern, processor, conflict solver, disabled predicate, rule condition or consequence) raises at any of its invocations, the exception (StopIteration aside) reaches the caller of matches() unchanged and the next call on the same Rebulk behaves as on a fresh one.
 A callback may itself call matches() on the same Rebulk, with any string and context and nested any number of times, without changing the outcome of either call.""",
 ["fault_sequences"],"every callback invocation of several configurations as the fault or re-entry point, followed by further calls",
 "No test injects a fault.",
 [RB,PT,CH,RU,PR],[("per-call state only","all")],[],["Rebulk.matches"])

p("C25","Bundled validators and combinators decide by the adjacent characters only",
 """chars_before / chars_after / chars_surround accept a match exactly when the character before / after / on both sides of it is among the given characters or the text boundary is there; validators(...) accepts exactly when all given validators do; formatters(...) applies the given formatters left to right.""",
 ["inputs"],"every span of every text up to length 4 over a small alphabet with every character set, and every composition of up to 3 functions",
 "Tests use one sentence.",
 ["rebulk/validators.py","rebulk/formatters.py"],[("validators","rebulk/validators.py"),("formatters","rebulk/formatters.py")],[],["validators and formatters modules"])

p("C26","Rules see the stage of their priority; their changes go through later stages",
 """With the default rules, a rule of priority PRE_PROCESS or above (one registered by the user runs after the default rule of its own priority) is given what the patterns returned,
 before conflicts are solved; between PRE_PROCESS and POST_PROCESS the solved matches, private ones included; after POST_PROCESS only the public ones. Rules and the two default steps (conflict
 solving at PRE_PROCESS, removal of private matches at POST_PROCESS) run by decreasing priority, in registration order within one, each on the matches left by the one before. So a match added, removed, renamed, hidden or shown by
 a rule takes part in exactly the steps that come later, and without default rules none of the two steps happens; rules of a child rebulk are placed the same way.""",
 ["configurations","histories"],"every sequence of up to 3 of 5 matches (overlapping, apart, private) with one or two rules at every pair of 7 priorities around the default rules and every pair of 8 actions",
 "Tests use one or two priorities with one configuration each.",
 [RB,RU,PR],[("priority groups","Rules.execute_all_rules"),("default rules",PR)],[],["the matches given to a rule's condition, and the result of Rebulk.matches"])

p("C27","Debugging and logging never change results",
 """Whatever the debug flag is at configuration and at the call, whatever the logging level, and whatever log level is given to patterns and rules, matches() returns what it returns without them and raises nothing,
 every log message can be formatted, the log level given is the one the object has, and the representation of any match, collection, pattern or rule can be made and changes nothing. With the debug flag, patterns, matches and rules
 carry the location of their definition in user code; without it, none.""",
 ["configurations","inputs"],"every configuration of the C07 menu x strings x contexts x debug flag at configuration and at the call x logging levels; every assignment of log levels to patterns, rules and the default",
 "The suite runs with debugging and logging off, so code only executed with them on is not even executed.",
 ["rebulk/debug.py",RU,PT,M,RB],[("defined_at","rebulk/debug.py"),("log_level",PT),("log_level of rules",RU),("__repr__",M)],[],["Rebulk.matches, repr, records of the rebulk loggers"])

p("C28","Results do not depend on hash seeds, memory layout or interpreter optimisation",
 """The outcome of matches() - matches, markers, their order, names, tags and values - and of every query on a collection, and the order in which rules run, are determined by the configuration, the text and the context:
 they are the same whatever order sets of strings, classes, matches or patterns happen to be iterated in (hash seeds, hash values, addresses of objects), in every process, and with assertions stripped (-O, -OO).""",
 ["schedules","configurations"],"every permutation of the hashes of up to 4 rule classes and of the addresses and hashes of each 4 consecutive objects, and every order in which a set of the 4 names can be iterated (a process with a hash seed for each), with the configurations of the C07 menu, collections of 3 matches and rule graphs",
 "The suite runs in one process with one hash seed and one allocation order, under which an accidental dependency on set order looks stable.",
 [RU,U_T,UT,M,BU,RB],[("toposort_rules / sorted groups",RU),("IdentitySet, extend_safe",UT),("merging of list defaults",BU)],[],["Rebulk.matches, queries of Matches, rule execution order"])

p("C29","What is found in a piece of text does not depend on what is elsewhere",
 """Where callbacks look at nothing but the match they are given, the result for a text made of two pieces around a separator whose characters no pattern matches is the result for the first piece and, shifted, that for the second, whatever the mix of patterns, chains (beginning with a mandatory part), markers, conflict solvers and rules that look at overlapping matches only.
 Adding patterns, chains or child Rebulks that match only elsewhere, or nothing, leaves every other match and marker as it is and in the same order; and writing patterns and text with other characters, one for one, gives the same matches at the same spans.""",
 ["inputs","configurations"],"every pattern, pair and triple of a menu of 29 patterns x every text of two pieces of up to 3 letters, x 9 kinds of additions, x 12 alphabets",
 "Tests use one short text each; how one part of a text influences another only shows when results for several texts are compared.",
 [PT,CH,PR,RB,U_T,UT],[("_match",PT),("Chain._match",CH),("ConflictSolver.when",PR),("find_all",UT),("Matches.conflicting",M)],[("offsets of a chain and of the remaining text","move together",CH)],["Rebulk.matches"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
