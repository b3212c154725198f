"""Writes /verif/KNOWN_FINDINGS: repaired defects (hashes looked up from /repo's history by commit title)."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "keep Matches lookups coherent after any edit or lookup", "lookups answered from stale tables after insert, slice assignment, reverse, clear, rejected edits, or after a caller modified a returned list"),
 ("C01", "slicing and constructing Markers, and keep input_string in slices", "Markers slices were Matches rejecting markers; slices lost input_string and max_end"),
 ("C01", "tagged() returns a match once when it holds the same tag twice", "tagged(tag) returned a match twice"),
 ("C06", "give each match its own tags list", "AppendTags on one match changed the tags of every match of the pattern, and of later calls"),
 ("C16", "to_dict no longer appends into a list value owned by a match", "to_dict appended other values into the list value of the first match"),
 ("C02", "holes() no longer returns empty or negative holes", "holes() returned holes with end <= start"),
 ("C02", "positional queries keep equal but distinct matches apart", "range/previous/next/conflicting merged or excluded matches equal to another one"),
 ("C02", "annotate lists of the positional queries", "type annotations of the previous fix"),
 ("C04", "RemoveMatch removes the designated match, not an equal one before it", "removing private matches removed an equal public match"),
 ("C06", "AppendMatch handles a single match like a list of matches", "AppendMatch of a single match already present appended it twice"),
 ("C06", "AppendTags/RemoveTags keep a match that equals another one", "AppendTags/RemoveTags dropped a match equal to another one"),
 ("C09", "searching an empty string terminates instead of looping forever", "an empty string pattern looped forever"),
 ("C09", "ignore_case keeps indices when lower case changes the length", "ignore_case gave shifted spans after a character whose lower case is longer"),
 ("C20", "toposort leaves its input unmodified", "toposort removed self-dependencies from the caller's sets"),
 ("C14", "merging dict defaults no longer modifies the dicts it merges", "merging dict defaults modified the dict the caller gave"),
 ("C07", "do not modify the dict of a regex pattern nor the one a function returns", "the dict of a regex pattern and the dict returned by a functional pattern were emptied"),
 ("C13", "a failed chain attempt no longer hides or shifts following matches", "after a failed attempt chain offsets and remaining input disagreed: spans shifted, matches lost"),
 ("C13", "lookups on children of a chain match use their final spans", "children.starting/ending/range of a chain match answered with spans relative to the remaining input"),
 ("C04", "marker patterns with groups no longer raise AssertionError", "a regex marker with groups raised AssertionError"),
 ("C05", "a rule instance given as dependency is looked up in its group", "a dependency given as an instance was ignored or pulled in a rule of another priority"),
 ("C05", "order rules of a level by their own registration", "rules of a level ran in the registration order of equal rules, not their own"),
 ("C06", "RemoveTags removes a tag the match holds several times", "RemoveTags left one of two occurrences of a tag"),
 ("C12", "call methods and callable objects with the arguments they accept", "callable objects and some methods were called with one argument too many or too few"),
 ("C21", "introspection lists the names that a value does not cover", "a pattern with a value for some names listed only these names, not the others it can return"),
 ("C12", "call functions with the keyword-only arguments they accept", "keyword-only options were not passed to functions"),
 ("C27", "keep the log level given to a rule", "a rule made with a log level raised AttributeError when it was executed"),
 ("C18", "children of child rebulks are no longer ignored", "patterns, rules and declared keys of a child's own children were silently dropped when it was added to a parent"),
 ("C11", "a child of a chain match that fails its validator is not emptied", "a regex part failing the chain's validator for children lost its groups and was returned with an empty span instead of dropping the match"),
 ("C13", "matches of a nested chain are not children twice", "a nested chain returning its children had its groups added twice to the outer chain match, their parent replaced"),
 ("C14", 'an entry named "clear" in a dict of defaults is an entry like others', "a default formatter, value or validator for matches named 'clear' was dropped, together with the entries given to the pattern"),
 ("C13", "a chain part repeated {n} times is repeated exactly n times", "repeater('{2}') took any number of repetitions from two on, where repeater(2) takes two"),
 ("C13", "a chain with a chain_breaker may have marker parts", "a chain with a chain_breaker and marker parts raised AssertionError as soon as a part matched"),
 ("C13", "a chain validator that fails drops a nested chain together with its own parts", "when a chain validator failed and the last part was a chain, only the match of that chain was dropped; its own parts stayed, and the chain kept its end"),
 ("C16", "to() leaves the fields a dataclass does not take in its constructor", "to() a dataclass raised TypeError when a match had the name of a field with init=False"),
 ("C21", "introspecting without a context disables children as matching does", "introspect(rebulk) gave None as context to the disabled function of children, where matches(text) gives an empty one"),
 ("C13", "Keep chain repetitions that follow one returning nothing", "a repeated chain part with children=True lost the repetitions after one without a participating group: chain().string('-').regex('a(?P<x>b)?', children=True).repeater('+') on '-aab' gave (0, 1), not (0, 4)"),
 ("C13", "Shift the raw span of chain parts along with their span", "a chain part whose processor sets raw_start/raw_end kept them relative to the text after the previous part: the chain was lost, or its raw text was that of elsewhere"),
 ("C14", "reset() resets the defaults, not the patterns and rules", "reset() of a Rebulk also dropped its patterns, rules and children"),
]
OPEN = [  # property, family, case, text
 ("C13", "several_expressions", "((('b',), None), (('a', 'c'), '?'), 'bc.a', [(0, 2)])", "a chain part with several expressions looks at the first occurrence of its first expression only: chain().string('b').string('a', 'c').repeater('?') finds 'b', not 'bc', in 'bc.a'"),
 ("C13", "several_expressions", "((('a', 'b'), '+'), None, 'abab', [(0, 4)])", "occurrences of the expressions of a repeated chain part do not follow each other in the text: chain().string('a', 'b').repeater('+') finds two matches of two characters in 'abab'"),
 ("C13", "several_expressions", "((('a', 'b'), 2), None, 'ab', [(0, 2)])", "occurrences of different expressions of a chain part count as the same repetition: chain().string('a', 'b').repeater(2) finds nothing in 'ab'"),
]
log = dict(l.split(" fix: ", 1)[::-1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], text=True, capture_output=True).stdout.splitlines() if " fix: " in l)
import sys
extra = sys.argv[1:]
missing = [t for t in log if t not in [x[1] for x in FIXED]]
assert not missing, missing
with open(os.path.join(ROOT, "KNOWN_FINDINGS"), "w") as f:
    f.write("# Findings on the unchanged tree. 'fixed:' entries record repaired defects and suppress nothing; hashes are commits of /repo.\n")
    f.write("# An unrepaired one would read 'open: property=<id> family=<family> case=<case> :: text'.\n")
    for pid, title, text in FIXED:
        f.write(f"fixed: property={pid} {log[title]} {text}\n")
    for pid, fam, case, text in OPEN:
        f.write(f"open: property={pid} family={fam} case={case} :: {text}\n")
print(len(FIXED), "fixed", len(OPEN), "open")
