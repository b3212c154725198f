From 42af4dd789a7e1a43eb87b522dd3d7098ec7c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/38] fix: keep Matches lookups coherent after any edit or
 lookup

Item assignment kept indexing the replaced match, insertion before the end
indexed in the wrong order, removal unindexed an equal match instead of the
removed one and max_end never shrank, a rejected match stayed in the list,
and looking up an absent name, tag or position left an empty entry behind
(at_index even returned the internal list).
---
 rebulk/match.py | 90 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..2975e67 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -164,6 +164,13 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         return self.__index_dict
 
+    def _check_match(self, match: Match) -> None:
+        """
+        Check that a match can be added, before any change is made
+        :param match:
+        :type match: Match
+        """
+
     def _add_match(self, match: Match) -> None:
         """
         Add a match
@@ -191,19 +198,43 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :type match: Match
         """
         if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
+            self._unindex(self._name_dict, match.name, match)
         if self.__tag_dict is not None:
             for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
+                self._unindex(self._tag_dict, tag, match)
         if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
+            self._unindex(self._start_dict, match.start, match)
         if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
+            self._unindex(self._end_dict, match.end, match)
         if self.__index_dict is not None:
             for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+                self._unindex(self._index_dict, index, match)
+        if match.end >= self._max_end:
+            self._max_end = max((other.end for other in self._delegate), default=0)
+
+    @staticmethod
+    def _unindex(index_dict: dict[Any, list[Match]], key: Any, match: Match) -> None:
+        """
+        Remove this very match (not an equal one) from a lookup structure, and the key itself once it is unused.
+        """
+        indexed = index_dict.get(key, [])
+        for index, other in enumerate(indexed):
+            if other is match:
+                del indexed[index]
+                break
+        if not indexed:
+            index_dict.pop(key, None)
+
+    def _reset_index(self) -> None:
+        """
+        Drop lookup structures, they will be lazily rebuilt from current matches.
+        """
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -308,7 +339,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             index = extras[1]
         collection: list[Match] = []
         for name in dict.fromkeys(name_list):
-            collection.extend(self._name_dict[name])
+            collection.extend(self._name_dict.get(name, ()))
         return filter_index(collection, predicate, index)
 
     @overload
@@ -331,7 +362,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._tag_dict[tag]), predicate, index)
+        return filter_index(_BaseMatches._base(self._tag_dict.get(tag, ())), predicate, index)
 
     @overload
     def starting(self, start: int, predicate: int) -> Match | None: ...
@@ -355,7 +386,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._start_dict[start]), predicate, index)
+        return filter_index(_BaseMatches._base(self._start_dict.get(start, ())), predicate, index)
 
     @overload
     def ending(self, end: int, predicate: int) -> Match | None: ...
@@ -375,7 +406,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._end_dict[end]), predicate, index)
+        return filter_index(_BaseMatches._base(self._end_dict.get(end, ())), predicate, index)
 
     @overload
     def range(self, start: int, end: int | None, predicate: int) -> Match | None: ...
@@ -732,8 +763,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given (start, end) tuple.
         """
-        starting = self._index_dict[span[0]]
-        ending = self._index_dict[span[1] - 1]
+        starting = self._index_dict.get(span[0], ())
+        ending = self._index_dict.get(span[1] - 1, ())
 
         merged = list(starting)
         for marker in ending:
@@ -756,7 +787,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict.get(pos, ())), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
@@ -831,7 +862,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def __getitem__(self, index: int | slice | Key[Any]) -> Any:
         if isinstance(index, Key):
-            named = self._name_dict[index.name]
+            named = self._name_dict.get(index.name)
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
@@ -842,7 +873,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieve all values for the given typed key, in match order.
         """
-        return [match.value for match in self._name_dict[key.name]]
+        return [match.value for match in self._name_dict.get(key.name, ())]
 
     def to(self, model: type[M]) -> M:
         """
@@ -903,7 +934,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
-            values = [match.value for match in self._name_dict[name]]
+            values = [match.value for match in self._name_dict.get(name, ())]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
@@ -956,12 +987,14 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
         if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+            match = list(match)  # type: ignore[arg-type]
+            for match_item in match:
+                self._check_match(match_item)
+        else:
+            self._check_match(match)  # type: ignore[arg-type]
+        self._delegate[index] = match  # type: ignore[index,assignment]
+        self._reset_index()
 
     def __delitem__(self, index: int | slice) -> None:
         match = self._delegate[index]
@@ -977,8 +1010,13 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
+        self._check_match(value)
+        appended = index >= len(self._delegate)
         self._delegate.insert(index, value)
-        self._add_match(value)
+        if appended:
+            self._add_match(value)
+        else:
+            self._reset_index()
 
 
 class Matches(_BaseMatches):
@@ -990,9 +1028,8 @@ class Matches(_BaseMatches):
         self.markers = Markers(input_string=input_string)
         super().__init__(matches=matches, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert not match.marker, "A marker match should not be added to <Matches> object"
-        super()._add_match(match)
 
 
 class Markers(_BaseMatches):
@@ -1003,9 +1040,8 @@ class Markers(_BaseMatches):
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
         super().__init__(matches=None, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-        super()._add_match(match)
 
 
 class Match:
-- 
2.43.0


From e2db951480466d9a60bcb08615e98bb3055bcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 02/38] fix: slicing and constructing Markers, and keep
 input_string in slices

Markers ignored its matches argument, slicing Markers raised AssertionError
and slices lost the input string (hence max_end).
---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 2975e67..fa6374e 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -866,7 +866,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return (Markers if isinstance(self, Markers) else Matches)(ret, self.input_string)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1038,7 +1038,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From aabf6350d924303a7cf4a761d1421af2ec8ae807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/38] fix: tagged() returns a match once when it holds the
 same tag twice

---
 rebulk/match.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index fa6374e..ddc4c82 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -149,7 +149,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -180,7 +180,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
@@ -200,7 +200,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             self._unindex(self._name_dict, match.name, match)
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 self._unindex(self._tag_dict, tag, match)
         if self.__start_dict is not None:
             self._unindex(self._start_dict, match.start, match)
-- 
2.43.0


From ba43954c4047cc2be51143441a125580acc6b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/38] fix: give each match its own tags list

The list given to the pattern was shared by all its matches (and by the
pattern itself), so AppendTags/RemoveTags on one match changed the others,
including those of later matches() calls.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index ddc4c82..8b08237 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1069,7 +1069,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From 7b1baa88f0f4e6c234ae81a8a6b84b85930de0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 05/38] fix: to_dict no longer appends into a list value owned
 by a match

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 8b08237..347b3e1 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -845,7 +845,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
                 else:
-                    ret[match.name] = value
+                    # copy: following values are appended, never into the list of the match itself
+                    ret[match.name] = list(value) if isinstance(value, list) else value
         return ret
 
     def __len__(self) -> int:
-- 
2.43.0


From 4ebcc15a7a3b6698bce3b3cdac52a401e18d7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 06/38] fix: holes() no longer returns empty or negative holes

---
 rebulk/match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 347b3e1..d4c0059 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -689,6 +689,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        # A hole opened before start, or closed by a separator before start, has nothing left in range
+        ret = [found for found in ret if found.start < found.end]
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From 7dc0455802c30e490de7ad7c850ff2c4e5b19784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 07/38] fix: positional queries keep equal but distinct matches
 apart

conflicting, at_span and chain_before/after dropped a match equal to another
one (a private match could hide its public twin), and conflicting raised
ValueError for a match that is empty or not in the collection.
---
 rebulk/match.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index d4c0059..dcf33a0 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -503,7 +503,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             filtered_matches = [index_match for index_match in index_matches if not predicate or predicate(index_match)]
             if filtered_matches:
                 for chain_match in filtered_matches:
-                    if chain_match not in chain:
+                    if not any(chain_match is found for found in chain):
                         chain.append(chain_match)
             elif self.input_string[i] not in seps:  # type: ignore[index]
                 break
@@ -559,7 +559,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             filtered_matches = [index_match for index_match in index_matches if not predicate or predicate(index_match)]
             if filtered_matches:
                 for chain_match in filtered_matches:
-                    if chain_match not in chain:
+                    if not any(chain_match is found for found in chain):
                         chain.append(chain_match)
             elif self.input_string[i] not in seps:  # type: ignore[index]
                 break
@@ -721,11 +721,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         for i in range(*match.span):
             for at_match in self.at_index(i):
-                if at_match not in ret:
+                if at_match is not match and not any(at_match is found for found in ret):
                     ret.append(at_match)
 
-        ret.remove(match)
-
         return filter_index(ret, predicate, index)
 
     @overload
@@ -770,7 +768,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         merged = list(starting)
         for marker in ending:
-            if marker not in merged:
+            if not any(marker is found for found in merged):
                 merged.append(marker)
 
         return filter_index(merged, predicate, index)
-- 
2.43.0


From 46fbc382ef47e38546c7613e40906bc3f2401cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 08/38] fix: RemoveMatch removes the designated match, not an
 equal one before it

With a private and a public match of the same value and span, the private one
could be returned instead of the public one, and ConflictSolver could keep the
wrong one of two equal matches.
---
 rebulk/processors.py |  4 +---
 rebulk/rules.py      | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/rebulk/processors.py b/rebulk/processors.py
index 8266210..ac622f7 100644
--- a/rebulk/processors.py
+++ b/rebulk/processors.py
@@ -90,9 +90,7 @@ class ConflictSolver(Rule):
                         if to_remove == DEFAULT:
                             continue
                         if to_remove and to_remove not in to_remove_matches:
-                            both_matches = [match, conflicting_match]
-                            both_matches.remove(to_remove)
-                            to_keep = both_matches[0]
+                            to_keep = conflicting_match if to_remove is match else match
 
                             if to_keep not in to_remove_matches:
                                 log(
diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..83a5dd9 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -141,15 +141,27 @@ class RemoveMatch(Consequence):
             ret = []
             when_response = list(when_response)
             for match in when_response:
-                if match in matches:
-                    matches.remove(match)
+                if self._remove(matches, match):
                     ret.append(match)
             return ret
-        if when_response in matches:
-            matches.remove(when_response)
+        if self._remove(matches, when_response):
             return when_response
         return None
 
+    @staticmethod
+    def _remove(matches: Matches, match: Any) -> bool:
+        """
+        Remove this very match if it is present, an equal one otherwise.
+        """
+        for index, other in enumerate(matches):
+            if other is match:
+                del matches[index]
+                return True
+        if match in matches:
+            matches.remove(match)
+            return True
+        return False
+
 
 class AppendMatch(Consequence):
     """
-- 
2.43.0


From ede1d4a2b660861e5f47aec4a1557529d60fb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 09/38] fix: AppendMatch handles a single match like a list of
 matches

A single match already present was renamed in place, which left the name
lookups stale.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 83a5dd9..6fbb7b8 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -182,9 +182,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From b2463987257e48588459fdb5fa07742ba2c6b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/38] fix: AppendTags/RemoveTags keep a match that equals
 another one

The match was removed to be tagged, then not put back when an equal match
(its private twin for instance) was present.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 6fbb7b8..a743c38 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -231,7 +231,7 @@ class AppendTags(Consequence):
         elif removed:
             removed.tags.extend(self.tags)
         if removed:
-            self.append.then(matches, removed, context)
+            matches.extend(removed if is_iterable(removed) else [removed])
 
 
 class RemoveTags(Consequence):
@@ -257,7 +257,7 @@ class RemoveTags(Consequence):
                 if tag in removed.tags:
                     removed.tags.remove(tag)
         if removed:
-            self.append.then(matches, removed, context)
+            matches.extend(removed if is_iterable(removed) else [removed])
 
 
 class Rules(list[CustomRule]):
-- 
2.43.0


From c904038880e5613057629fbca8ae92f700d0f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 11/38] fix: searching an empty string terminates instead of
 looping forever

---
 rebulk/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..146523e 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -52,6 +52,8 @@ def find_all(
     :return: all indices in the input string
     :rtype: __generator[str]
     """
+    if not sub:
+        return
     if ignore_case:
         sub = sub.lower()
         string = string.lower()
-- 
2.43.0


From 5fe1c58280766f5837c1ef85b27faedc6c2c35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/38] fix: ignore_case keeps indices when lower case changes
 the length

---
 rebulk/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 146523e..795bb92 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,15 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lower case of each character, so that indices are kept (str.lower may change the length, and depends on context).
+    """
+    if string.isascii():
+        return string.lower()
+    return "".join(char.lower() if len(char.lower()) == 1 else char for char in string)
+
+
 def find_all(
     string: str,
     sub: str,
@@ -55,8 +64,8 @@ def find_all(
     if not sub:
         return
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From ea01dfcef080f79904bd9669970e3976f9553059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/38] fix: toposort leaves its input unmodified

---
 rebulk/toposort.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..1d7c6ab 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -41,12 +41,8 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
     if len(data) == 0:
         return
 
-    # Copy the input so as to leave it unmodified.
-    data = data.copy()
-
-    # Ignore self dependencies.
-    for k, v in data.items():
-        v.discard(k)
+    # Copy the input so as to leave it unmodified, and ignore self dependencies.
+    data = {k: v - {k} for k, v in data.items()}
     # Find all items that don't depend on anything.
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     # Add empty dependences where needed.
-- 
2.43.0


From 99c3f25acd3c6f28b91b9e3fdb7900554f0303fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 14/38] fix: merging dict defaults no longer modifies the dicts
 it merges

A formatter/validator/value dict given to a pattern, or kept as a
type-specific default, was completed in place, so that it kept (and applied
to other patterns) defaults that were changed since.
---
 rebulk/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..d61e64b 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -186,6 +186,7 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
+                kwargs[key] = dict(kwargs[key])  # never modify a dict owned by the caller or by other defaults
+                set_defaults(dict(value), kwargs[key])
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From ce840c9845b32f2b3dd09780004f0eefd52ae1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 15/38] fix: do not modify the dict of a regex pattern nor the
 one a function returns

---
 rebulk/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..9843d86 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -480,6 +480,7 @@ class RePattern(Pattern):
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
+                    pattern = dict(pattern)
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
                 pattern = re.compile(**pattern)
@@ -564,12 +565,10 @@ class FunctionalPattern(Pattern):
                 args_iterable = ret
             for args in args_iterable:
                 if isinstance(args, dict):
-                    options = args
+                    options = self._match_kwargs.copy()
+                    options.update(args)
                     options.pop("input_string", None)
                     options.pop("pattern", None)
-                    if self._match_kwargs:
-                        options = self._match_kwargs.copy()
-                        options.update(args)
                     match = Match(pattern=self, input_string=input_string, **options)
                     if match:
                         yield match
-- 
2.43.0


From d226615d04da8db2979ed0221daa834a65161bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 16/38] fix: a failed chain attempt no longer hides or shifts
 following matches

The scan went back to the end of the first match but kept the remaining input
from further on, which shifted following spans; it did not go back at all when
the first part was hidden, and gave up when the first part had too few
repetitions.
---
 rebulk/chain.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..e273bf4 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -24,6 +24,10 @@ class _InvalidChainException(Exception):
     Internal exception raised when a chain is not valid
     """
 
+    def __init__(self, raw_matches: list[Match]) -> None:
+        super().__init__()
+        self.raw_matches = raw_matches
+
 
 class Chain(Pattern):
     """
@@ -62,11 +66,14 @@ class Chain(Pattern):
             chain_found = False
             current_chain_matches: list[Match] = []
             valid_chain = True
+            retry_offset: int | None = None  # end of the first repetition found, where to resume after a failure
             for chain_part in self.parts:
                 try:
                     chain_part_matches, raw_chain_part_matches = chain_part.matches(
                         chain_input_string, context, with_raw_matches=True
                     )
+                    if retry_offset is None and raw_chain_part_matches:
+                        retry_offset = offset + raw_chain_part_matches[0].raw_end
 
                     chain_found, chain_input_string, offset = self._to_next_chain_part(
                         chain_part,
@@ -78,10 +85,14 @@ class Chain(Pattern):
                         offset,
                         current_chain_matches,
                     )
-                except _InvalidChainException:
+                except _InvalidChainException as invalid:
                     valid_chain = False
-                    if current_chain_matches:
-                        offset = current_chain_matches[0].raw_end
+                    if retry_offset is None and invalid.raw_matches:
+                        retry_offset = offset + invalid.raw_matches[0].raw_end
+                    if retry_offset is not None:
+                        chain_found = True
+                        offset = retry_offset
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
@@ -304,7 +315,7 @@ class ChainPart(BasePattern):
         if matches:
             max_match_index = max(m.match_index for m in matches)
         if max_match_index + 1 < self.repeater_start:
-            raise _InvalidChainException
+            raise _InvalidChainException(matches)
 
     def chain(self) -> ChainBuilder:
         """
-- 
2.43.0


From 10855f9afe8a4403017c8ab846d9ffc27a53f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 17/38] fix: lookups on children of a chain match use their
 final spans

The collections holding children kept the input string and the max end of the
remaining input searched by the chain part, so next() or holes() missed
matches.
---
 rebulk/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index e273bf4..3ed7efb 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -201,6 +201,9 @@ class Chain(Pattern):
                 chain_part_match.start += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
+                # Children have moved, so lookups of the collection holding them have to be built again
+                chain_part_match.children = chain_part_match.children[:]
+                chain_part_match.children.input_string = input_string
 
     @staticmethod
     def _group_by_match_index(matches: Iterable[Match]) -> dict[int, list[Match]]:
-- 
2.43.0


From be09536d2b5b282ef0f549f19176f3b4808d32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/38] fix: marker patterns with groups no longer raise
 AssertionError

Groups of a marker regular expression are markers too, and so may be the parts
of a chain.
---
 rebulk/chain.py |  2 +-
 rebulk/match.py | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 3ed7efb..b7ef6d9 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -154,7 +154,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = match.children[:]
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
diff --git a/rebulk/match.py b/rebulk/match.py
index dcf33a0..06c6a12 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -867,7 +867,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return (Markers if isinstance(self, Markers) else Matches)(ret, self.input_string)
+            return type(self)(ret, self.input_string)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1033,6 +1033,15 @@ class Matches(_BaseMatches):
         assert not match.marker, "A marker match should not be added to <Matches> object"
 
 
+class _ChildrenMatches(Matches):
+    """
+    Children of a match, which are markers when they come from a marker pattern.
+    """
+
+    def _check_match(self, match: Match) -> None:
+        pass
+
+
 class Markers(_BaseMatches):
     """
     A custom list[Match] containing markers list.
@@ -1098,7 +1107,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = _ChildrenMatches(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From 1d304f6ca52a699ce41eed56553e464a2e6b1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 19/38] fix: a rule instance given as dependency is looked up
 in its group

An instance of a rule which is absent, or has another priority, was scheduled as
if it were registered there: ValueError, or a rule executed twice.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index a743c38..c74b03d 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -390,8 +390,8 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                # a rule which is not in the same group is not part of the graph
+                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From a8a04147c69abe245baf3b67db3e4bfc1ce0467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 20/38] fix: order rules of a level by their own registration

Rules are equal when they have the same class, so list.index gave the position of
an instance registered with another priority.
---
 rebulk/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index c74b03d..c921450 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -326,10 +326,13 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        positions = {id(rule): position for position, rule in enumerate(self)}  # rules of one class are equal
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                sorted_group = sorted(
+                    rules_group, key=lambda rule: positions[id(rule)]
+                )  # Sort rules group based on initial ordering.
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From 045be13ad7e96abad6a256cb2463ec2aa7b2b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 21/38] fix: annotate lists of the positional queries

---
 rebulk/match.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 06c6a12..8976932 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -495,7 +495,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if hasattr(position, "start"):
             position = position.start
 
-        chain = _BaseMatches._base()
+        chain: list[Match] = _BaseMatches._base()
         position = min(self.max_end, position)
 
         for i in reversed(range(start, position)):
@@ -550,7 +550,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         if hasattr(position, "end"):
             position = position.end
-        chain = _BaseMatches._base()
+        chain: list[Match] = _BaseMatches._base()
 
         end = self.max_end if end is None else min(self.max_end, end)
 
@@ -717,7 +717,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return:
         :rtype:
         """
-        ret = _BaseMatches._base()
+        ret: list[Match] = _BaseMatches._base()
 
         for i in range(*match.span):
             for at_match in self.at_index(i):
-- 
2.43.0


From 98d3376af426942ad1d5ab037b6e4df32af82583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 22/38] fix: RemoveTags removes a tag the match holds several
 times

AppendTags applied twice, then RemoveTags, left the match tagged.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index c921450..597ad3c 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -250,11 +250,11 @@ class RemoveTags(Consequence):
             removed = list(removed)
             for match in removed:
                 for tag in self.tags:
-                    if tag in match.tags:
+                    while tag in match.tags:
                         match.tags.remove(tag)
         elif removed:
             for tag in self.tags:
-                if tag in removed.tags:
+                while tag in removed.tags:
                     removed.tags.remove(tag)
         if removed:
             matches.extend(removed if is_iterable(removed) else [removed])
-- 
2.43.0


From 0d70ee5b952d676a3701c594f16f6b5912ca6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 23/38] fix: call methods and callable objects with the
 arguments they accept

getfullargspec lists self even when it is bound, so a method taking only the
input string was also given the context.
---
 rebulk/loose.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index d61e64b..6475c8d 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,8 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from functools import partial
+from inspect import getfullargspec, isclass, ismethod, isroutine
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -26,6 +27,20 @@ def _constructor(class_: Any) -> Any:
     return class_
 
 
+def _is_bound(callable_: Any) -> bool:
+    """
+    Check if the first argument of a callable (self) is already bound, for methods and objects defining __call__
+
+    :param callable_: callable to inspect
+    :type callable_: callable
+    :return: True if getfullargspec contains an argument that should not be given
+    :rtype: bool
+    """
+    if ismethod(callable_):
+        return True
+    return not isroutine(callable_) and not isinstance(callable_, partial) and ismethod(callable_.__call__)
+
+
 def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     """
     Call a function or constructor with given args and kwargs after removing args and kwargs that doesn't match
@@ -59,7 +74,7 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    return argspec_args(argspec, _is_bound(callable_), *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
-- 
2.43.0


From 067bd5ff510e9ca10de3c9d96af3b8c9d8697cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 24/38] fix: call functions with the keyword-only arguments
 they accept

---
 rebulk/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 6475c8d..8cd15b8 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -109,7 +109,8 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
+    names = argspec.args + argspec.kwonlyargs
+    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in names}
     call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
     return call_args, call_kwarg
 
-- 
2.43.0


From 0ac3ddc17582e3dad34eafa61261bc30f78d2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 25/38] fix: introspection lists the names that a value does
 not cover

---
 rebulk/introspector.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rebulk/introspector.py b/rebulk/introspector.py
index caf95f0..af120d1 100644
--- a/rebulk/introspector.py
+++ b/rebulk/introspector.py
@@ -56,17 +56,25 @@ class PatternDescription(Description):
             if pattern_values:
                 for value_key, value in pattern_values.items():
                     extend_safe(self._properties[cast("str", value_key)], [value])
-            elif isinstance(pattern, StringPattern):
-                extend_safe(self._properties[cast("str", pattern.name)], pattern.patterns)
+            # Names without a value of their own can be generated too
+            valued = set(self._properties)
+            if isinstance(pattern, StringPattern):
+                if pattern.name not in valued:
+                    extend_safe(self._properties[cast("str", pattern.name)], pattern.patterns)
             elif isinstance(pattern, RePattern):
-                if pattern.name and pattern.name not in pattern.private_names:
+                if pattern.name and pattern.name not in pattern.private_names and pattern.name not in valued:
                     extend_safe(self._properties[pattern.name], [None])
                 if not pattern.private_children:
                     for regex_pattern in pattern.patterns:
                         for group_name in regex_pattern.groupindex:
-                            if group_name not in pattern.private_names:
+                            if group_name not in pattern.private_names and group_name not in valued:
                                 extend_safe(self._properties[group_name], [None])
-            elif isinstance(pattern, FunctionalPattern) and pattern.name and pattern.name not in pattern.private_names:
+            elif (
+                isinstance(pattern, FunctionalPattern)
+                and pattern.name
+                and pattern.name not in pattern.private_names
+                and pattern.name not in valued
+            ):
                 extend_safe(self._properties[pattern.name], [None])
 
     @property
-- 
2.43.0


From 7aadfa637f4f850fe0f1658283a1aa5260853a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 26/38] fix: keep the log level given to a rule

---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 597ad3c..6985a3c 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 5f5f219296b5e6731c992783242b1ef999b7f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 27/38] fix: reset() resets the defaults, not the patterns and
 rules

---
 rebulk/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/builder.py b/rebulk/builder.py
index 3554d7a..a0ad91b 100644
--- a/rebulk/builder.py
+++ b/rebulk/builder.py
@@ -217,7 +217,7 @@ class Builder(PatternFactory, metaclass=ABCMeta):
         """
         Reset all defaults.
         """
-        self.__init__()  # type: ignore[misc]
+        PatternFactory.__init__(self)
 
     @abstractmethod
     def pattern(self, *pattern: Any) -> Self:
-- 
2.43.0


From 2d3518acaa50e3a0277ab6f2d86da2995341fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 28/38] fix: children of child rebulks are no longer ignored

effective_patterns, effective_rules, effective_keys and check_keys looked one
level down only, so what a child rebulk had got from its own children was
silently dropped when it was added to a parent.
---
 rebulk/rebulk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rebulk/rebulk.py b/rebulk/rebulk.py
index 6978168..cb3a528 100644
--- a/rebulk/rebulk.py
+++ b/rebulk/rebulk.py
@@ -176,7 +176,7 @@ class Rebulk(Builder):
         rules.extend(self._rules)
         for rebulk in self._rebulks:
             if not rebulk.disabled(context):
-                extend_safe(rules, rebulk._rules)
+                extend_safe(rules, rebulk.effective_rules(context))
         return rules
 
     def effective_keys(self, context: dict[str, Any] | None = None) -> dict[str, Key[Any]]:
@@ -193,7 +193,7 @@ class Rebulk(Builder):
         keys: dict[str, Key[Any]] = dict(self._keys)
         for rebulk in self._rebulks:
             if not rebulk.disabled(context):
-                for name, key in rebulk._keys.items():
+                for name, key in rebulk.effective_keys(context).items():
                     keys.setdefault(name, key)
         return keys
 
@@ -223,10 +223,12 @@ class Rebulk(Builder):
         """
         declared: dict[str, Key[Any]] = dict(self._keys)
         patterns: list[Pattern] = list(self._patterns)
-        for rebulk in self._rebulks:
+        rebulks: list[Rebulk] = list(self._rebulks)
+        for rebulk in rebulks:
             for name, key in rebulk._keys.items():
                 declared.setdefault(name, key)
             patterns.extend(rebulk._patterns)
+            rebulks.extend(rebulk._rebulks)
         if not declared:
             return []
         produced: set[str] = set()
@@ -260,7 +262,7 @@ class Rebulk(Builder):
         patterns = list(self._patterns)
         for rebulk in self._rebulks:
             if not rebulk.disabled(context):
-                extend_safe(patterns, rebulk._patterns)
+                extend_safe(patterns, rebulk.effective_patterns(context))
         return patterns
 
     def _matches_patterns(self, matches: Matches, context: dict[str, Any]) -> None:
-- 
2.43.0


From f4e1e4d69eedb4177edc7a5fd0a41f84cd2b65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 29/38] fix: a child of a chain match that fails its validator
 is not emptied

Only the chain match itself may be tried again without its last repetitions;
the same was done to the groups of a child, which then was returned with an
empty span instead of dropping the match.
---
 rebulk/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index b7ef6d9..b49ca6d 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -147,7 +147,7 @@ class Chain(Pattern):
         if ret:
             return True
 
-        if match.children:
+        if match.children and not child:
             last_pattern = match.children[-1].pattern
             last_pattern_groups = self._group_by_match_index(
                 [child_ for child_ in match.children if child_.pattern == last_pattern]
-- 
2.43.0


From abf721a8e02d70752b4a9790b8b4e2c8c50f7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:07 +0000
Subject: [PATCH 30/38] fix: matches of a nested chain are not children twice

When a nested chain returns its children, groups came both on their own and as
children of their match: they were added twice to the outer chain match, and
their parent was replaced.
---
 rebulk/chain.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index b49ca6d..a9006b4 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -12,6 +12,7 @@ from .loose import call
 from .match import Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
+from .utils import IdentitySet
 
 if TYPE_CHECKING:
     from collections.abc import Callable, Iterable, Iterator
@@ -180,13 +181,16 @@ class Chain(Pattern):
             if end is None or end < match.end:
                 end = match.end
         match = cast("Match", call(Match, start, end, pattern=self, input_string=input_string, **self._match_kwargs))
+        # Matches of a nested chain may come along with their own children, held once and keeping their parent
+        held = IdentitySet(child for chain_match in current_chain_matches for child in chain_match.children)
         for chain_match in current_chain_matches:
-            if chain_match.children:
-                for child in chain_match.children:
+            for child in chain_match.children:
+                if not any(child is found for found in match.children):
                     match.children.append(child)
             if chain_match not in match.children:
                 match.children.append(chain_match)
-                chain_match.parent = match
+                if chain_match not in held:
+                    chain_match.parent = match
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-- 
2.43.0


From 4fd85754120545984ba24b8eb2304ab7760b08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 31/38] fix: an entry named "clear" in a dict of defaults is an
 entry like others

---
 rebulk/loose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 8cd15b8..ab2c505 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -197,12 +197,19 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
+    _merge_defaults(defaults, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: bool = False) -> None:
+    """
+    Merge defaults into kwargs: lists are concatenated, dicts are merged (whatever their keys, even "clear").
+    """
     for key, value in defaults.items():
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
                 kwargs[key] = dict(kwargs[key])  # never modify a dict owned by the caller or by other defaults
-                set_defaults(dict(value), kwargs[key])
+                _merge_defaults(value, kwargs[key])
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From bdd62075a1192a2c67d0fd8b92ee1d220f240ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 32/38] fix: a chain part repeated {n} times is repeated
 exactly n times

---
 rebulk/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index a9006b4..1d77711 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -404,10 +404,10 @@ class ChainPart(BasePattern):
             self.repeater_start = 0
             self.repeater_end = 1
         else:
-            match = re.match(r"\{\s*(\d*)\s*,?\s*(\d*)\s*\}", value)
+            match = re.match(r"\{\s*(\d*)\s*(,?)\s*(\d*)\s*\}", value)
             if match:
                 start = match.group(1)
-                end = match.group(2)
+                end = match.group(3) or ("" if match.group(2) else start)  # {n} is exactly n
                 if start or end:
                     self.repeater_start = int(start) if start else 0
                     self.repeater_end = int(end) if end else None
-- 
2.43.0


From 1069f77f1e64b1320fa17187feffe735f70e3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 33/38] fix: a chain with a chain_breaker may have marker parts

---
 rebulk/chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 1d77711..5f4ae36 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -9,7 +9,7 @@ import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
 from .loose import call
-from .match import Match, Matches
+from .match import Match, _ChildrenMatches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
 from .utils import IdentitySet
@@ -18,6 +18,7 @@ if TYPE_CHECKING:
     from collections.abc import Callable, Iterable, Iterator
 
     from .builder import ChainBuilder
+    from .match import Matches
 
 
 class _InvalidChainException(Exception):
@@ -194,7 +195,7 @@ class Chain(Pattern):
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-        return not self.chain_breaker or not self.chain_breaker(Matches(matches))
+        return not self.chain_breaker or not self.chain_breaker(_ChildrenMatches(matches))
 
     @staticmethod
     def _fix_matches_offset(chain_part_matches: Iterable[Match], input_string: str, offset: int) -> None:
-- 
2.43.0


From 304a5714abe912d6dda3f582390256626d0e432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 34/38] fix: a chain validator that fails drops a nested chain
 together with its own parts

---
 rebulk/chain.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 5f4ae36..6af2a2d 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -150,9 +150,9 @@ class Chain(Pattern):
             return True
 
         if match.children and not child:
-            last_pattern = match.children[-1].pattern
+            last_patterns = self._patterns_with(match.children[-1].pattern)
             last_pattern_groups = self._group_by_match_index(
-                [child_ for child_ in match.children if child_.pattern == last_pattern]
+                [child_ for child_ in match.children if child_.pattern in last_patterns]
             )
 
             if last_pattern_groups:
@@ -173,6 +173,19 @@ class Chain(Pattern):
 
         return False
 
+    def _patterns_with(self, pattern: Any) -> list[Any]:
+        """
+        Patterns of the part the given pattern comes from: those inside a nested chain go along with it.
+        """
+        for part in self.parts:
+            patterns = [part.pattern]
+            for nested in patterns:
+                if isinstance(nested, Chain):
+                    patterns.extend(nested_part.pattern for nested_part in nested.parts)
+            if pattern in patterns:
+                return patterns
+        return [pattern]
+
     def _build_chain_match(self, current_chain_matches: list[Match], input_string: str) -> Match:
         start: int | None = None
         end: int | None = None
-- 
2.43.0


From 476097409d35a0455da5925a25ae841b793dfca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:57 +0000
Subject: [PATCH 35/38] fix: to() leaves the fields a dataclass does not take
 in its constructor

---
 rebulk/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 8976932..6407788 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -916,7 +916,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return cast("M", [match.value for match in self])
         if dataclasses.is_dataclass(model):
             hints = get_type_hints(model)
-            field_names: Iterable[str] = [data_field.name for data_field in dataclasses.fields(model)]
+            field_names: Iterable[str] = [
+                data_field.name for data_field in dataclasses.fields(model) if data_field.init
+            ]
         elif is_typeddict(model):
             hints = get_type_hints(model)
             field_names = hints
-- 
2.43.0


From 5a604d73e7320ea5f8ff398239cb6767ce22e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 36/38] fix: introspecting without a context disables children
 as matching does

---
 rebulk/introspector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/introspector.py b/rebulk/introspector.py
index af120d1..2ba271c 100644
--- a/rebulk/introspector.py
+++ b/rebulk/introspector.py
@@ -117,6 +117,8 @@ class Introspection(Description):
     """
 
     def __init__(self, rebulk: Rebulk, context: dict[str, Any] | None = None) -> None:
+        if context is None:
+            context = {}
         self.patterns = [
             PatternDescription(pattern)
             for pattern in rebulk.effective_patterns(context)
-- 
2.43.0


From 07bf2bf6a76deab58006a875de4537c28aee23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:31 +0000
Subject: [PATCH 37/38] fix: Keep chain repetitions that follow one returning
 nothing

---
 rebulk/chain.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 6af2a2d..f92260b 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -301,8 +301,8 @@ class ChainPart(BasePattern):
     ) -> list[Match] | tuple[list[Match], list[Match]]:
         matches, raw_matches = self.pattern.matches(input_string, context=context, with_raw_matches=True)
 
-        matches = self._truncate_repeater(matches, input_string)
         raw_matches = self._truncate_repeater(raw_matches, input_string)
+        matches = self._truncate_repeater(matches, input_string, raw_matches)
 
         self._validate_repeater(raw_matches)
 
@@ -311,18 +311,33 @@ class ChainPart(BasePattern):
 
         return matches
 
-    def _truncate_repeater(self, matches: list[Match], input_string: str) -> list[Match]:
+    @staticmethod
+    def _separator(input_string: str, start: int, end: int, repetitions: Iterable[Match]) -> str:
+        """
+        Text from start to end, once skipped the repetitions it begins with (those having no match to return).
+        """
+        if start < end:
+            for repetition in repetitions:
+                if repetition.raw_start == start and repetition.raw_end <= end:
+                    start = repetition.raw_end
+        return input_string[start:end]
+
+    def _truncate_repeater(
+        self, matches: list[Match], input_string: str, repetitions: Iterable[Match] = ()
+    ) -> list[Match]:
         if not matches:
             return matches
 
         if not self._is_chain_start:
-            separator = input_string[0 : matches[0].initiator.raw_start]
+            separator = self._separator(input_string, 0, matches[0].initiator.raw_start, repetitions)
             if separator:
                 return []
 
         j = 1
         for i in range(len(matches) - 1):
-            separator = input_string[matches[i].initiator.raw_end : matches[i + 1].initiator.raw_start]
+            separator = self._separator(
+                input_string, matches[i].initiator.raw_end, matches[i + 1].initiator.raw_start, repetitions
+            )
             if separator:
                 break
             j += 1
-- 
2.43.0


From 9df2a16bf2716093b722413ecd526dd2a8c6871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:29 +0000
Subject: [PATCH 38/38] fix: Shift the raw span of chain parts along with their
 span

---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index f92260b..764bfa3 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -217,6 +217,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match.raw_start = chain_part_match._raw_start + offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match.raw_end = chain_part_match._raw_end + offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
                 # Children have moved, so lookups of the collection holding them have to be built again
-- 
2.43.0

