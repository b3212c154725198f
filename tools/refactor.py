"""Rewrite a copy of the repository without changing its behaviour: the checks have to stay quiet on it.

usage: refactor.py COPY      (COPY: a scratch copy of /repo, rewritten in place)

Every entry replaces one piece of text by another that does the same; the suite is run afterwards by hand, then every
check with VERIF_REPO=COPY.  DESIGN.md, "Refactorings tried", says what came out.
"""
import os, re, sys

EDITS = []


def edit(name, path, *pairs):
    EDITS.append((name, path, pairs))


# 1. private lookup tables renamed, filled with plain loops instead of groupby
edit("rename lookup tables", "match.py", (r"re:\b_(name|tag|start|end|index)_dict\b", r"_by_\1"),
     ("""            for start, values in itertools.groupby(list(self._delegate), lambda item: item.start):
                _BaseMatches._base_extend(self.__start_dict[start], values)""",
      """            for item in self._delegate:
                self.__start_dict[item.start].append(item)"""),
     ("""            for start, values in itertools.groupby(list(self._delegate), lambda item: item.end):
                _BaseMatches._base_extend(self.__end_dict[start], values)""",
      """            for item in self._delegate:
                self.__end_dict.setdefault(item.end, []).append(item)"""))

# 2. helper extracted from RePattern._match
edit("helper in RePattern._match", "pattern.py",
     ("""                    if self.repeated_captures:
                        spans = match_object.spans(i)
                    else:
                        span = match_object.span(i)
                        spans = [span] if span[0] > -1 and span[1] > -1 else []
                    for child_start, child_end in spans:""",
      """                    for child_start, child_end in self._group_spans(match_object, i):"""),
     ("""    def _match(self, pattern: Any, input_string: str, context: dict[str, Any] | None = None) -> Iterator[Match]:
        names = {""",
      """    def _group_spans(self, match_object: Any, group: int) -> Any:
        if self.repeated_captures:
            return match_object.spans(group)
        begin, finish = match_object.span(group)
        if begin < 0 or finish < 0:
            return ()
        return ((begin, finish),)

    def _match(self, pattern: Any, input_string: str, context: dict[str, Any] | None = None) -> Iterator[Match]:
        names = {"""))

# 3. the chain restart computed by a helper; the string sliced where it is used
edit("chain loop rewritten", "chain.py",
     ("""                    if retry_offset is None and raw_chain_part_matches:
                        retry_offset = offset + raw_chain_part_matches[0].raw_end
""", """                    retry_offset = self._resume_at(retry_offset, offset, raw_chain_part_matches)
"""),
     ("""                    if retry_offset is None and invalid.raw_matches:
                        retry_offset = offset + invalid.raw_matches[0].raw_end
                    if retry_offset is not None:
                        chain_found = True
                        offset = retry_offset
                        chain_input_string = input_string[offset:]
                    break
""", """                    retry_offset = self._resume_at(retry_offset, offset, invalid.raw_matches)
                    if retry_offset is None:
                        break
                    offset, chain_found = retry_offset, True
                    chain_input_string = input_string[retry_offset:]
                    break
"""),
     ("""    def _process_match(self, match: Match, match_index""", """    @staticmethod
    def _resume_at(known: int | None, offset: int, found: list[Match]) -> int | None:
        return known if known is not None or not found else found[0].raw_end + offset

    def _process_match(self, match: Match, match_index"""),
     ("""        start: int | None = None
        end: int | None = None
        for match in current_chain_matches:
            if start is None or start > match.start:
                start = match.start
            if end is None or end < match.end:
                end = match.end
""", """        start = min(item.start for item in current_chain_matches)
        end = max(item.end for item in current_chain_matches)
"""),
     ("""        grouped_matches_dict: dict[int, list[Match]] = {}
        # groupby only groups consecutive equal keys, so sort by match_index first
        # to avoid splitting (and overwriting) groups when matches are unordered.
        sorted_matches = sorted(matches, key=lambda m: m.match_index)
        for match_index, match in itertools.groupby(sorted_matches, lambda m: m.match_index):
            grouped_matches_dict[match_index] = list(match)
        return grouped_matches_dict
""", """        groups: dict[int, list[Match]] = {}
        for match in matches:
            groups.setdefault(match.match_index, []).append(match)
        return {index: groups[index] for index in sorted(groups)}
"""))

# 4. scheduling of rules: scheduling moved to a generator, level of a group computed with max
edit("rule scheduling rewritten", "rules.py",
     ("""        for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
            sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
            for rules_group in sorted_rules:
                sorted_group = sorted(
                    rules_group, key=lambda rule: positions[id(rule)]
                )  # Sort rules group based on initial ordering.
                group_log_level: int | None = None
                for rule in sorted_group:
                    if group_log_level is None or group_log_level < rule.log_level:
                        group_log_level = rule.log_level
                log(cast("int", group_log_level), "%s independent rule(s) at priority %s.", len(sorted_group), priority)
                for rule in sorted_group:
                    when_response = execute_rule(rule, matches, context)
                    if when_response is not None:
                        ret.append((rule, when_response))

        return ret
""", """        for priority, sorted_group in self._groups(positions):
            level = max(rule.log_level for rule in sorted_group)
            log(level, "%s independent rule(s) at priority %s.", len(sorted_group), priority)
            for rule in sorted_group:
                when_response = execute_rule(rule, matches, context)
                if when_response is None:
                    continue
                ret.append((rule, when_response))
        return ret

    def _groups(self, positions: dict[int, int]) -> Iterator[tuple[int, list[CustomRule]]]:
        for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
            for rules_group in toposort_rules(list(priority_rules)):
                ordered = list(rules_group)
                ordered.sort(key=lambda rule: positions[id(rule)])
                yield priority, ordered
"""),
     ("""        removed = self.remove.then(matches, when_response, context)
        if is_iterable(removed):
            removed = list(removed)
            for match in removed:
                match.tags.extend(self.tags)
        elif removed:
            removed.tags.extend(self.tags)
        if removed:
            matches.extend(removed if is_iterable(removed) else [removed])
""", """        removed = self.remove.then(matches, when_response, context)
        found = list(removed) if is_iterable(removed) else [removed] if removed else []
        for match in found:
            match.tags.extend(self.tags)
        if found:
            matches.extend(found)
"""))

# 5. signatures cached
edit("signatures cached", "loose.py",
     ("""def function_args(callable_: Any""", """_SPECS: dict[Any, Any] = {}


def _spec(callable_: Any) -> Any:
    key = getattr(callable_, "__code__", None)
    if key is None or ismethod(callable_) or hasattr(callable_, "__wrapped__") or hasattr(callable_, "__signature__"):
        return getfullargspec(callable_)
    if key not in _SPECS:
        _SPECS[key] = getfullargspec(callable_)
    return _SPECS[key]


def function_args(callable_: Any"""),
     ("""    argspec = getfullargspec(callable_)
""", """    argspec = _spec(callable_)
"""),
     ("""    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in names}
    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
    return call_args, call_kwarg
""", """    given = len(argspec.args)
    if constructor:
        given -= 1
    if not argspec.varargs:
        args = args[:given]
    if argspec.varkw:
        return args, kwargs
    return args, dict((k, v) for k, v in kwargs.items() if k in names)
"""))

# 6. conflicts: one helper decides a pair
edit("conflict helper", "processors.py",
     ("""                    conflict_solvers = [(self.default_conflict_solver, False)]

                    if match.conflict_solver:
                        conflict_solvers.append((match.conflict_solver, False))
                    if conflicting_match.conflict_solver:
                        conflict_solvers.append((conflicting_match.conflict_solver, True))

                    for conflict_solver, reverse in reversed(conflict_solvers):
                        if reverse:
                            to_remove = conflict_solver(conflicting_match, match)
                        else:
                            to_remove = conflict_solver(match, conflicting_match)
                        if to_remove == DEFAULT:
                            continue
                        if to_remove and to_remove not in to_remove_matches:
                            to_keep = conflicting_match if to_remove is match else match

                            if to_keep not in to_remove_matches:
                                log(
                                    self.log_level,
                                    "Conflicting match %s will be removed in favor of match %s",
                                    to_remove,
                                    to_keep,
                                )

                                to_remove_matches.add(to_remove)
                        break
        return to_remove_matches
""", """                    to_remove = self._decide(match, conflicting_match)
                    if not to_remove or to_remove in to_remove_matches:
                        continue
                    to_keep = conflicting_match if to_remove is match else match
                    if to_keep in to_remove_matches:
                        continue
                    log(
                        self.log_level,
                        "Conflicting match %s will be removed in favor of match %s",
                        to_remove,
                        to_keep,
                    )
                    to_remove_matches.add(to_remove)
        return to_remove_matches

    def _decide(self, match: Match, other: Match) -> Any:
        if other.conflict_solver:
            answer = other.conflict_solver(other, match)
            if answer != DEFAULT:
                return answer
        if match.conflict_solver:
            answer = match.conflict_solver(match, other)
            if answer != DEFAULT:
                return answer
        answer = self.default_conflict_solver(match, other)
        return None if answer == DEFAULT else answer
"""))

# 7. small utilities written in another way
edit("find_all and friends", "utils.py",
     ("""    while True:
        start = string.find(sub, start, end)
        if start == -1:
            return
        yield start
        start += len(sub)
""", """    step = len(sub)
    position = string.find(sub, start, end)
    while position >= 0:
        yield position
        position = string.find(sub, position + step, end)
"""),
     ("""    for key in keys:
        if key in data:
            return data[key]  # type: ignore[index]
    return default_value
""", """    return next((data[key] for key in keys if key in data), default_value)  # type: ignore[index]
"""),
     ("""        for elt in source:
            if elt not in seen:
                target.append(elt)
                seen.add(elt)
    except""", """        for elt in source:
            if elt in seen:
                continue
            seen.add(elt)
            target.append(elt)
    except"""))

# 8. effective_*: children walked by one helper
edit("children helper", "rebulk.py",
     ("""        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(rules, rebulk._rules)
        return rules
""", """        for rebulk in self._enabled_children(context):
            extend_safe(rules, rebulk._rules)
        return rules

    def _enabled_children(self, context: dict[str, Any] | None) -> Iterable[Rebulk]:
        return (rebulk for rebulk in self._rebulks if not rebulk.disabled(context))
"""),
     ("""        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                for name, key in rebulk._keys.items():
                    keys.setdefault(name, key)
        return keys
""", """        for rebulk in self._enabled_children(context):
            keys = {**rebulk._keys, **keys}
        return keys
"""),
     ("""        for rebulk in self._rebulks:
            if not rebulk.disabled(context):
                extend_safe(patterns, rebulk._patterns)
        return patterns
""", """        for rebulk in self._enabled_children(context):
            extend_safe(patterns, rebulk._patterns)
        return patterns
"""),
     ("""                if not pattern.disabled(context):
                    pattern_matches = pattern""", """                if pattern.disabled(context):
                    log(pattern.log_level, "Pattern is disabled. (%s)", pattern)
                else:
                    pattern_matches = pattern"""),
     ("""                            log(pattern.log_level, "Match found. (%s)", match)
                            matches.append(match)
                else:
                    log(pattern.log_level, "Pattern is disabled. (%s)", pattern)""",
      """                            log(pattern.log_level, "Match found. (%s)", match)
                            matches.append(match)"""))

# 9. toposort: counting instead of rebuilding the table
edit("toposort rewritten", "toposort.py",
     ("""    while True:
        ordered = {item for item, dep in data.items() if len(dep) == 0}
        if not ordered:
            break
        yield ordered
        data = {item: (dep - ordered) for item, dep in data.items() if item not in ordered}
    if len(data) != 0:
        raise CyclicDependency(data)
""", """    ordered = {item for item, dep in data.items() if not dep}
    while ordered:
        yield ordered
        rest: dict[_T, set[_T]] = {}
        for item, dep in data.items():
            if item not in ordered:
                rest[item] = dep.difference(ordered)
        data = rest
        ordered = {item for item, dep in data.items() if not dep}
    if data:
        raise CyclicDependency(data)
"""))

# 10. validators and stack walking
edit("validators", "validators.py",
     ("""    if match.start <= 0:
        return True
    return cast("str", match.input_string)[match.start - 1] in chars
""", """    left = match.start - 1
    return left < 0 or cast("str", match.input_string)[left] in chars
"""),
     ("""        return all(chained_validator(match) for chained_validator in chained_validators)
""", """        for chained_validator in chained_validators:
            if not chained_validator(match):
                return False
        return True
"""))
edit("stack walking", "debug.py",
     ("frame: FrameType | None = inspect.currentframe()", "frame: FrameType | None = sys._getframe(0)"),
     ("import os\n", "import os\nimport sys\n"),
     ("import inspect\n", ""))

# 11. builder: private attributes renamed, reset of defaults through one helper
edit("builder attributes", "builder.py", (r"re:\b_regex_defaults\b", "_regex_options"),
     (r"re:\b_string_defaults\b", "_string_options"), (r"re:\b_functional_defaults\b", "_functional_options"),
     (r"re:\b_chain_defaults\b", "_chain_options"))
edit("pattern stages", "pattern.py",
     ("""        matches: list[Match] = []
        raw_matches: list[Match] = []

        for pattern in self.patterns:
            for match_index, match in enumerate(self._match(pattern, input_string, context)):
                raw_matches.append(match)
                matches.extend(self._process_matches(match, match_index))
""", """        raw_matches: list[Match] = []
        matches: list[Match] = []

        for pattern in self.patterns:
            match_index = 0
            for match in self._match(pattern, input_string, context):
                raw_matches.append(match)
                for processed in self._process_matches(match, match_index):
                    matches.append(processed)
                match_index += 1
"""),
     ("""        if (
            (match.name and match.name in self.private_names)
            or (not child and self.private_parent)
            or (child and self.private_children)
        ):
            match.private = True
""", """        by_kind = self.private_children if child else self.private_parent
        if by_kind or (match.name and match.name in self.private_names):
            match.private = True
"""))

# 12. statements of the introspector reordered (nothing else)
edit("matches: index and queries", "match.py",
     ("""        current = match.start + 1
        while current <= self._max_end:
            next_matches = self.starting(current)
            if next_matches:
                return filter_index(next_matches, predicate, index)
            current += 1
        return filter_index(_BaseMatches._base(), predicate, index)
""", """        for position in range(match.start + 1, self._max_end + 1):
            found = self.starting(position)
            if found:
                return filter_index(found, predicate, index)
        return filter_index([], predicate, index)
"""),
     ("""        current = match.start
        while current > -1:
            previous_matches = self.ending(current)
            if previous_matches:
                return filter_index(previous_matches, predicate, index)
            current -= 1
        return filter_index(_BaseMatches._base(), predicate, index)
""", """        for position in reversed(range(match.start + 1)):
            found = self.ending(position)
            if found:
                return filter_index(found, predicate, index)
        return filter_index([], predicate, index)
"""),
     ("""        self._max_end = max(self._max_end, match.end)
""", """        if match.end > self._max_end:
            self._max_end = match.end
"""))


def main(root):
    if os.path.realpath(root) == "/repo":
        sys.exit("not on /repo")
    for name, path, pairs in EDITS:
        full = os.path.join(root, "rebulk", path)
        text = open(full).read()
        for old, new in pairs:
            if old.startswith("re:"):
                changed = re.sub(old[3:], new, text)
            else:
                changed = text.replace(old, new, 1)
            if changed == text:
                print("no such text:", name, repr(old[:60]))
            text = changed
        open(full, "w").write(text)


if __name__ == "__main__":
    main(sys.argv[1])
