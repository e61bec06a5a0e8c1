From 78cad70dafd4c47167c976e1d48a16db6cb775f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 01/49] fix: resume a failed chain from the end of its first
 match

When a chain could not be completed, the resume offset was reset but the
remaining input was not, so next parts were searched from a wrong place and
reported with shifted spans.
---
 rebulk/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..c21e4df 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -82,6 +82,7 @@ class Chain(Pattern):
                     valid_chain = False
                     if current_chain_matches:
                         offset = current_chain_matches[0].raw_end
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
-- 
2.43.0


From 9c8a44a93832b45f0d3f56d3e00935899bcd1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 02/49] fix: keep searching a chain after too few repetitions
 of its first part

---
 rebulk/chain.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index c21e4df..e130064 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -24,6 +24,10 @@ class _InvalidChainException(Exception):
     Internal exception raised when a chain is not valid
     """
 
+    def __init__(self, raw_matches: list[Match]) -> None:
+        super().__init__()
+        self.raw_matches = raw_matches
+
 
 class Chain(Pattern):
     """
@@ -78,8 +82,13 @@ class Chain(Pattern):
                         offset,
                         current_chain_matches,
                     )
-                except _InvalidChainException:
+                except _InvalidChainException as exc:
                     valid_chain = False
+                    if not chain_found and exc.raw_matches:
+                        # Not enough repetitions here, but there may be further in the input.
+                        chain_found = True
+                        offset += exc.raw_matches[-1].raw_end
+                        chain_input_string = input_string[offset:]
                     if current_chain_matches:
                         offset = current_chain_matches[0].raw_end
                         chain_input_string = input_string[offset:]
@@ -305,7 +314,7 @@ class ChainPart(BasePattern):
         if matches:
             max_match_index = max(m.match_index for m in matches)
         if max_match_index + 1 < self.repeater_start:
-            raise _InvalidChainException
+            raise _InvalidChainException(matches)
 
     def chain(self) -> ChainBuilder:
         """
-- 
2.43.0


From 44efcd10afd2a1b92337f6296eef87e82f105680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 03/49] fix: keep Matches lookups consistent with the list

Setting, inserting and removing items left stale, duplicated or misordered
entries in the name/tag/position lookups, a query was enough to add a name or
to change max_end, and a rejected match was still left in the list.
---
 rebulk/match.py | 88 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..5e09897 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -190,20 +190,45 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :param match:
         :type match: Match
         """
+        if any(other is match for other in self._delegate):
+            # The same object is still in the list, its remaining positions have to be computed again.
+            self._reset_lookups()
         if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
+            self._remove_lookup(self._name_dict, match.name, match)
         if self.__tag_dict is not None:
             for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
+                self._remove_lookup(self._tag_dict, tag, match)
         if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
+            self._remove_lookup(self._start_dict, match.start, match)
         if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
+            self._remove_lookup(self._end_dict, match.end, match)
         if self.__index_dict is not None:
             for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+                self._remove_lookup(self._index_dict, index, match)
+        if match.end >= self._max_end and match.end not in self._end_dict:
+            self._max_end = max(self._end_dict, default=0)
+
+    @staticmethod
+    def _remove_lookup(lookup: dict[Any, list[Match]], key: Any, match: Match) -> None:
+        """
+        Remove a match from a lookup structure, by identity: an equal match may still be in the list.
+        """
+        values = [other for other in lookup.get(key, ()) if other is not match]
+        if values:
+            lookup[key] = values
+        else:
+            lookup.pop(key, None)
+
+    def _reset_lookups(self) -> None:
+        """
+        Drop lookup structures, they are built again from the list on next access.
+        """
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -308,7 +333,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             index = extras[1]
         collection: list[Match] = []
         for name in dict.fromkeys(name_list):
-            collection.extend(self._name_dict[name])
+            collection.extend(self._name_dict.get(name, ()))
         return filter_index(collection, predicate, index)
 
     @overload
@@ -331,7 +356,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._tag_dict[tag]), predicate, index)
+        return filter_index(_BaseMatches._base(self._tag_dict.get(tag, ())), predicate, index)
 
     @overload
     def starting(self, start: int, predicate: int) -> Match | None: ...
@@ -355,7 +380,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._start_dict[start]), predicate, index)
+        return filter_index(_BaseMatches._base(self._start_dict.get(start, ())), predicate, index)
 
     @overload
     def ending(self, end: int, predicate: int) -> Match | None: ...
@@ -375,7 +400,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._end_dict[end]), predicate, index)
+        return filter_index(_BaseMatches._base(self._end_dict.get(end, ())), predicate, index)
 
     @overload
     def range(self, start: int, end: int | None, predicate: int) -> Match | None: ...
@@ -732,8 +757,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given (start, end) tuple.
         """
-        starting = self._index_dict[span[0]]
-        ending = self._index_dict[span[1] - 1]
+        starting = self._index_dict.get(span[0], ())
+        ending = self._index_dict.get(span[1] - 1, ())
 
         merged = list(starting)
         for marker in ending:
@@ -756,7 +781,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict.get(pos, ())), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
@@ -764,7 +789,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all names.
         :return:
         """
-        return self._name_dict.keys()
+        return dict.fromkeys(self._name_dict).keys()
 
     @property
     def tags(self) -> KeysView[str]:
@@ -772,7 +797,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all tags.
         :return:
         """
-        return self._tag_dict.keys()
+        return dict.fromkeys(self._tag_dict).keys()
 
     @overload
     def to_dict(
@@ -831,7 +856,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def __getitem__(self, index: int | slice | Key[Any]) -> Any:
         if isinstance(index, Key):
-            named = self._name_dict[index.name]
+            named = self._name_dict.get(index.name)
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
@@ -842,7 +867,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieve all values for the given typed key, in match order.
         """
-        return [match.value for match in self._name_dict[key.name]]
+        return [match.value for match in self._name_dict.get(key.name, ())]
 
     def to(self, model: type[M]) -> M:
         """
@@ -903,7 +928,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
-            values = [match.value for match in self._name_dict[name]]
+            values = [match.value for match in self._name_dict.get(name, ())]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
@@ -956,20 +981,24 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
-        if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+        self._reset_lookups()
+        try:
+            if isinstance(index, slice):
+                match = _BaseMatches._base(match)  # type: ignore[arg-type]
+                for match_item in match:
+                    self._add_match(match_item)
+            else:
+                self._add_match(match)  # type: ignore[arg-type]
+            self._delegate[index] = match  # type: ignore[index,assignment]
+        finally:
+            self._reset_lookups()
 
     def __delitem__(self, index: int | slice) -> None:
         match = self._delegate[index]
         del self._delegate[index]
         if isinstance(match, list):
             # if index is a slice, we has a match list
-            for match_item in match:
-                self._remove_match(match_item)
+            self._reset_lookups()
         else:
             self._remove_match(match)
 
@@ -977,8 +1006,11 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
-        self._delegate.insert(index, value)
+        if index < len(self._delegate):
+            # Not an append, so lookups order is not the insertion order.
+            self._reset_lookups()
         self._add_match(value)
+        self._delegate.insert(index, value)
 
 
 class Matches(_BaseMatches):
-- 
2.43.0


From 9a871ffb54babf6c2a69cb15200259bafbf227d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 04/49] fix: slice matches and markers into the same kind of
 list

Slicing markers raised AssertionError, a slice lost the input string and
declared keys, and Markers ignored its initial matches.
---
 rebulk/match.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 5e09897..122763d 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -860,7 +860,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            sliced = type(self)(ret, self.input_string)
+            sliced.declared_keys = self.declared_keys
+            return sliced
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1033,7 +1035,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _add_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From d0aa7bdea64f9971e3a334174dc46c87175cbec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/49] fix: remove the given match rather than another equal
 one

Equality ignores privacy and tags, so removing a private match could remove an
equal public one and leak the private one in results.
---
 rebulk/match.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 122763d..c9744ce 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1007,6 +1007,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
+    def remove(self, value: Match) -> None:
+        """
+        Remove a match: the given object itself if it's in the list, else the first match equal to it.
+        """
+        for index, match in enumerate(self._delegate):
+            if match is value:
+                del self[index]
+                return
+        super().remove(value)
+
     def insert(self, index: int, value: Match) -> None:
         if index < len(self._delegate):
             # Not an append, so lookups order is not the insertion order.
-- 
2.43.0


From 99051789d41e88c0b1807165d07cc3c4c65bc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 06/49] fix: keep tagged matches when an equal match exists

Tags are not part of equality, so AppendTags and RemoveTags dropped the match
they had just removed whenever another equal match was in the list.
---
 rebulk/rules.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..20c8ab6 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -208,7 +208,6 @@ class AppendTags(Consequence):
     def __init__(self, tags: list[str]) -> None:
         self.tags = tags
         self.remove = RemoveMatch()
-        self.append = AppendMatch()
 
     def then(self, matches: Matches, when_response: Any, context: dict[str, Any] | None) -> Any:
         removed = self.remove.then(matches, when_response, context)
@@ -216,10 +215,10 @@ class AppendTags(Consequence):
             removed = list(removed)
             for match in removed:
                 match.tags.extend(self.tags)
+            matches.extend(removed)
         elif removed:
             removed.tags.extend(self.tags)
-        if removed:
-            self.append.then(matches, removed, context)
+            matches.append(removed)
 
 
 class RemoveTags(Consequence):
@@ -230,7 +229,6 @@ class RemoveTags(Consequence):
     def __init__(self, tags: list[str]) -> None:
         self.tags = tags
         self.remove = RemoveMatch()
-        self.append = AppendMatch()
 
     def then(self, matches: Matches, when_response: Any, context: dict[str, Any] | None) -> Any:
         removed = self.remove.then(matches, when_response, context)
@@ -240,12 +238,12 @@ class RemoveTags(Consequence):
                 for tag in self.tags:
                     if tag in match.tags:
                         match.tags.remove(tag)
+            matches.extend(removed)
         elif removed:
             for tag in self.tags:
                 if tag in removed.tags:
                     removed.tags.remove(tag)
-        if removed:
-            self.append.then(matches, removed, context)
+            matches.append(removed)
 
 
 class Rules(list[CustomRule]):
-- 
2.43.0


From 02b16b2bde191b90432355992e60862f82671b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 07/49] fix: do not rename a match AppendMatch has nothing to
 append for

The match was renamed in place without updating the list lookups, while the
same match given inside an iterable was left untouched.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 20c8ab6..3a3e0e2 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -170,9 +170,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From 3ad34757d4ffe7d717064d39c89c31b64fbad4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/49] fix: give each match its own list of tags

It was the list of the pattern, so tags appended to a match by a rule leaked
to other matches and to next calls, and failed with a tuple of tags.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index c9744ce..b998dab 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1077,7 +1077,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From 609102db081be0a95488350418484e907835abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 09/49] fix: do not modify a match list value in to_dict

Next values were appended in the list held by the match and its pattern.
---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index b998dab..e6f8a91 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -834,7 +834,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     else:
                         if value in ret[match.name]:
                             continue
-                    ret[match.name].append(value)
+                    # new list, because this one may be the value of a match
+                    ret[match.name] = [*ret[match.name], value]
             else:
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
-- 
2.43.0


From d1b4348876ea7e820a93ed063a582a9194692d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 10/49] fix: merge default dicts in a copy

Merging in place changed dicts given by the caller, defaults of other patterns
and already built patterns, and made overrides= ineffective for dicts.
---
 rebulk/loose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..e6c382c 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -186,6 +186,8 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
+                merged = dict(kwargs[key])
+                set_defaults(value, merged)
+                kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From db6738c0ab1bd598dca4ba26a2e2e4fc46edad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 11/49] fix: keep indices when searching a string with
 ignore_case

Lowercasing may change the length of the string (dotted capital I), or depend
on neighbour characters (final sigma).
---
 rebulk/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..f818c75 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,20 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lowercase each character of a string, without changing its length so indices are kept.
+
+    :param string: the input string
+    :type string: str
+    :return: lowercase string
+    :rtype: str
+    """
+    if string.isascii():
+        return string.lower()
+    return "".join(char.lower() if len(char.lower()) == 1 else char for char in string)
+
+
 def find_all(
     string: str,
     sub: str,
@@ -53,8 +67,8 @@ def find_all(
     :rtype: __generator[str]
     """
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From befc0e504e0b3cbda14d9c588c9731a0067384e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 12/49] fix: do not loop forever when searching an empty string

---
 rebulk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index f818c75..cd7ef24 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -74,7 +74,7 @@ def find_all(
         if start == -1:
             return
         yield start
-        start += len(sub)
+        start += len(sub) or 1
 
 
 def get_first_defined(
-- 
2.43.0


From e37406477c844cd85258df58551a9be1689fa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/49] fix: do not return empty or negative holes

---
 rebulk/match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index e6f8a91..681a71d 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -683,6 +683,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        # A hole may end before or at the given start
+        ret = [match for match in ret if match.start < match.end]
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From 6d6844e80c0ea59da799379305d0b609efd9789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 14/49] fix: call methods and callable objects without unused
 arguments

The bound self argument was counted, so a functional pattern given as a method
or a callable object was called with one argument too many.
---
 rebulk/loose.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index e6c382c..c7fb872 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,7 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from inspect import getfullargspec, isclass, ismethod
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -59,7 +59,8 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    bound = ismethod(callable_) or ismethod(callable_.__call__)  # self argument is already given
+    return argspec_args(argspec, bound, *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
-- 
2.43.0


From d9ea5d0179f32037fb4c26786cf182e2935b0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 15/49] fix: support keyword-only arguments and classes without
 constructor in call

Keyword-only arguments were dropped, and a class without constructor was given
all arguments but the last one.
---
 rebulk/loose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index c7fb872..eaa5eb6 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -95,8 +95,8 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
-    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
+    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args + argspec.kwonlyargs}
+    call_args = args if argspec.varargs else args[: max(0, len(argspec.args) - (1 if constructor else 0))]
     return call_args, call_kwarg
 
 
-- 
2.43.0


From e338644b11d4015bed4a3d11a7b647bedc0a05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 16/49] fix: support marker patterns with children

A marker regex with groups, or a chain of marker patterns, raised
AssertionError because its children were added to a non-marker list.
---
 rebulk/chain.py |  6 +++---
 rebulk/match.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index e130064..76d4cef 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -9,7 +9,7 @@ import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
 from .loose import call
-from .match import Match, Matches
+from .match import Children, Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
 
@@ -153,7 +153,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = Children(match.children)
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
@@ -189,7 +189,7 @@ class Chain(Pattern):
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-        return not self.chain_breaker or not self.chain_breaker(Matches(matches))
+        return not self.chain_breaker or not self.chain_breaker(Children(matches))
 
     @staticmethod
     def _fix_matches_offset(chain_part_matches: Iterable[Match], input_string: str, offset: int) -> None:
diff --git a/rebulk/match.py b/rebulk/match.py
index 681a71d..097b895 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1055,6 +1055,15 @@ class Markers(_BaseMatches):
         super()._add_match(match)
 
 
+class Children(Matches):
+    """
+    A custom list[Match] containing children of a match, that can be markers if their parent is.
+    """
+
+    def _add_match(self, match: Match) -> None:
+        _BaseMatches._add_match(self, match)
+
+
 class Match:
     """
     Object storing values related to a single match
@@ -1108,7 +1117,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = Children(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From 6327a232d9ac513892e6a40eda8d69139e15e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/49] fix: reset lookups of chain part children after fixing
 their offset

Positions looked up by a processor or validator before the fix were kept.
---
 rebulk/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 76d4cef..670355d 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -200,6 +200,8 @@ class Chain(Pattern):
                 chain_part_match.start += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
+                chain_part_match.children.input_string = input_string
+                chain_part_match.children._reset_lookups()
 
     @staticmethod
     def _group_by_match_index(matches: Iterable[Match]) -> dict[int, list[Match]]:
-- 
2.43.0


From ff78bd49e1410e0a877d4ac9ed5603e81ea6b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 18/49] fix: retrieve conflicts of a match that is not in the
 list

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 097b895..3e6192c 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -718,7 +718,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if at_match not in ret:
                     ret.append(at_match)
 
-        ret.remove(match)
+        if match in ret:
+            ret.remove(match)
 
         return filter_index(ret, predicate, index)
 
-- 
2.43.0


From deaf603d9bcd70859f36947f3055564276ef5ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 19/49] fix: do not modify a regex pattern given as a dict

---
 rebulk/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..f72d449 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -479,6 +479,7 @@ class RePattern(Pattern):
                         pattern = pattern.replace(key, replacement)
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
+                pattern = dict(pattern)
                 if self.abbreviations and "pattern" in pattern:
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
-- 
2.43.0


From b68c4d92681f96fcb54a39e226164d6162df1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 20/49] fix: leave toposort input unmodified

Self dependencies were removed from the sets of the caller.
---
 rebulk/toposort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..a641d71 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -42,7 +42,7 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
         return
 
     # Copy the input so as to leave it unmodified.
-    data = data.copy()
+    data = {item: set(dep) for item, dep in data.items()}
 
     # Ignore self dependencies.
     for k, v in data.items():
-- 
2.43.0


From 243086c968e38378216cfbc0ddc1886815f299de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 21/49] fix: do not let a private match hide a conflict

A private match equal to a public one hid it when looking for conflicts, so
both overlapping public matches were kept.
---
 rebulk/processors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rebulk/processors.py b/rebulk/processors.py
index 8266210..d56e4c2 100644
--- a/rebulk/processors.py
+++ b/rebulk/processors.py
@@ -8,13 +8,14 @@ from __future__ import annotations
 from logging import getLogger
 from typing import TYPE_CHECKING, Any
 
+from .match import Matches
 from .rules import RemoveMatch, Rule
 from .utils import IdentitySet
 
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from .match import Match, Matches
+    from .match import Match
 
 log = getLogger(__name__).log
 
@@ -61,11 +62,11 @@ class ConflictSolver(Rule):
     def when(self, matches: Matches, context: dict[str, Any] | None) -> Any:
         to_remove_matches = IdentitySet()
 
-        public_matches = [match for match in matches if not match.private]
-        public_matches.sort(key=len)
+        # A private match must not hide an equal public one from conflicts.
+        public_matches = Matches([match for match in matches if not match.private])
 
-        for match in public_matches:
-            conflicting_matches = matches.conflicting(match)
+        for match in sorted(public_matches, key=len):
+            conflicting_matches = public_matches.conflicting(match)
 
             if conflicting_matches:
                 # keep the match only if it's the longest
-- 
2.43.0


From a0c8b604fb45cd9e608a91cd42317286f0faf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 22/49] fix: remove every occurrence of a tag in RemoveTags

A tag that is there twice, like after AppendTags, was still there once.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 3a3e0e2..f1bebd5 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -236,12 +236,12 @@ class RemoveTags(Consequence):
             removed = list(removed)
             for match in removed:
                 for tag in self.tags:
-                    if tag in match.tags:
+                    while tag in match.tags:
                         match.tags.remove(tag)
             matches.extend(removed)
         elif removed:
             for tag in self.tags:
-                if tag in removed.tags:
+                while tag in removed.tags:
                     removed.tags.remove(tag)
             matches.append(removed)
 
-- 
2.43.0


From f6cd7c4c6b5a446f2c2f9bdda8dfbdb29498574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 23/49] fix: load only rule classes from a rules module

---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index f1bebd5..0d4a6a2 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -282,8 +282,8 @@ class Rules(list[CustomRule]):
         :rtype:
         """
 
-        def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+        def predicate(member: Any) -> bool:
+            return inspect.isclass(member) and member.__module__ == module.__name__ and issubclass(member, CustomRule)
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0


From eaecd6b215774898b9f07ecf996daeeb3ab84040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 24/49] fix: do not truncate the parts of a chain when they are
 refused

---
 rebulk/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 670355d..1c9ebe8 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -146,7 +146,7 @@ class Chain(Pattern):
         if ret:
             return True
 
-        if match.children:
+        if match.children and not child:
             last_pattern = match.children[-1].pattern
             last_pattern_groups = self._group_by_match_index(
                 [child_ for child_ in match.children if child_.pattern == last_pattern]
-- 
2.43.0


From 7a5b89769c216bee666ea0ac67f7d34cae739f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 25/49] fix: keep the minimum repetitions of the last part when
 a chain is truncated

When a validator refused a chain, every repetition of its last part was
dropped, including those its repeater requires, and a chain without its last
part was returned.
---
 rebulk/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 1c9ebe8..68aea4e 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -157,6 +157,8 @@ class Chain(Pattern):
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
+                    if any(part.pattern is last_pattern and index < part.repeater_start for part in self.parts):
+                        break
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
-- 
2.43.0


From 15997ded35a35eb4dff81f3ca59d09685d09f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 26/49] fix: do not select a match several times when it has
 the same tag twice

---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3e6192c..68abae8 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -149,7 +149,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -173,7 +173,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
-- 
2.43.0


From 9e4a49757f25160f8c4f0bbb6d3e52d59fd19b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 27/49] fix: keep the log level given to a rule

A rule created with a log level had no log level at all, and failed when executed.
---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 0d4a6a2..5a02bcb 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 637473990b21fd05368fd89b3b53ca9e84335663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 28/49] fix: do not run the dependency of a rule again at the
 priority of this rule

A dependency given as a rule instance was executed with the rules of the dependent
rule, even if it has another priority, was executed already or is not registered.
---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 5a02bcb..047bafb 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -378,8 +378,8 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                if dependency:
+                    dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From 2938562df56a3091b117f68181748ad933916f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 29/49] fix: run independent rules in registration order when a
 class is used at several priorities

The position of a rule was the position of the first rule of its class.
---
 rebulk/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 047bafb..6095b66 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -314,10 +314,13 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        # Positions by identity, because rules of the same class are equal.
+        positions = {id(rule): position for position, rule in enumerate(self)}
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                # Sort rules group based on initial ordering.
+                sorted_group = sorted(rules_group, key=lambda rule: positions[id(rule)])
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From 91bb434374a7dc5fdd79ee53a136f4b6c00c72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 30/49] fix: keep zero-length matches renamed or tagged by a
 consequence

A match of no length is false in boolean context, so it was removed and never put back.
---
 rebulk/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 6095b66..8fbc502 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -196,9 +196,9 @@ class RenameMatch(Consequence):
             removed = list(removed)
             for match in removed:
                 match.name = self.match_name
-        elif removed:
+        elif removed is not None:
             removed.name = self.match_name
-        if removed:
+        if removed is not None:
             self.append.then(matches, removed, context)
 
 
@@ -218,7 +218,7 @@ class AppendTags(Consequence):
             for match in removed:
                 match.tags.extend(self.tags)
             matches.extend(removed)
-        elif removed:
+        elif removed is not None:
             removed.tags.extend(self.tags)
             matches.append(removed)
 
@@ -241,7 +241,7 @@ class RemoveTags(Consequence):
                     while tag in match.tags:
                         match.tags.remove(tag)
             matches.extend(removed)
-        elif removed:
+        elif removed is not None:
             for tag in self.tags:
                 while tag in removed.tags:
                     removed.tags.remove(tag)
-- 
2.43.0


From 4b42d4156903114bc81da9a1f90fc007a06ef70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 31/49] fix: report the last hole when it holds a zero-length
 match

A match of no length covers no character, and does not end a hole.
---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 68abae8..22ce197 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -596,7 +596,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         for rindex in range(position, self.max_end):
             for starting in self.starting(rindex):
-                if not ignore or not ignore(starting):
+                if starting and (not ignore or not ignore(starting)):
                     return rindex
         return self.max_end
 
-- 
2.43.0


From 5c8aff3c25918a15bb288b2dbe03ff93f42265c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 32/49] fix: shift explicit raw bounds of chain parts with
 their matches

Raw bounds set by a processor are relative to the text given to the part, like its start and end.
---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 68aea4e..eb66619 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -200,6 +200,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match._raw_start += offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match._raw_end += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
                 chain_part_match.children.input_string = input_string
-- 
2.43.0


From d0efed5140b9accb89b8b01f0a037709c4ee3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 33/49] fix: count repetitions of chain parts whose matches are
 replaced by a processor

The match index was only set on the match returned by the pre match processor, so replaced ones all counted as the first.
---
 rebulk/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index f72d449..cc86164 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -198,6 +198,8 @@ class Pattern(BasePattern, metaclass=ABCMeta):
 
         for pattern in self.patterns:
             for match_index, match in enumerate(self._match(pattern, input_string, context)):
+                # A processor may replace this match, but chains count repetitions on it.
+                self._process_match_index(match, match_index)
                 raw_matches.append(match)
                 matches.extend(self._process_matches(match, match_index))
 
-- 
2.43.0


From be23ac5a808e0aa3238e73d4126dfef29d387b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 34/49] fix: leave dataclass fields out of the constructor
 alone when projecting matches

A field declared with init=False was given to the constructor, which refuses it.
---
 rebulk/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 22ce197..7833a75 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -915,7 +915,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return cast("M", [match.value for match in self])
         if dataclasses.is_dataclass(model):
             hints = get_type_hints(model)
-            field_names: Iterable[str] = [data_field.name for data_field in dataclasses.fields(model)]
+            field_names: Iterable[str] = [
+                data_field.name for data_field in dataclasses.fields(model) if data_field.init
+            ]
         elif is_typeddict(model):
             hints = get_type_hints(model)
             field_names = hints
-- 
2.43.0


From d42c6e96fa3d437cbd126d2b1234f81b94192749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 35/49] fix: describe every name and value a pattern can give,
 and no other

Names left out of a dict of values were not described, roles were described as names, as well as
private and ignored names having a value and parents which are never returned.
---
 rebulk/introspector.py | 64 ++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/rebulk/introspector.py b/rebulk/introspector.py
index caf95f0..e37f92b 100644
--- a/rebulk/introspector.py
+++ b/rebulk/introspector.py
@@ -10,9 +10,11 @@ from collections import defaultdict
 from typing import TYPE_CHECKING, Any, cast
 
 from .pattern import FunctionalPattern, Pattern, RePattern, StringPattern
-from .utils import extend_safe
+from .utils import extend_safe, get_first_defined
 
 if TYPE_CHECKING:
+    from collections.abc import Iterator
+
     from .rebulk import Rebulk
     from .rules import CustomRule
 
@@ -45,29 +47,43 @@ class PatternDescription(Description):
             for key, values in pattern.properties.items():
                 extend_safe(self._properties[key], values)
         else:
-            # A `value=` given to the pattern is stored in `pattern.values` (keyed by match
-            # name, or `None` for the default), not in `match_options`. When set, it is the
-            # introspected property value.
-            pattern_values = {
-                (value_name if value_name else pattern.name): value
-                for value_name, value in pattern.values.items()
-                if value is not None
-            }
-            if pattern_values:
-                for value_key, value in pattern_values.items():
-                    extend_safe(self._properties[cast("str", value_key)], [value])
-            elif isinstance(pattern, StringPattern):
-                extend_safe(self._properties[cast("str", pattern.name)], pattern.patterns)
-            elif isinstance(pattern, RePattern):
-                if pattern.name and pattern.name not in pattern.private_names:
-                    extend_safe(self._properties[pattern.name], [None])
-                if not pattern.private_children:
-                    for regex_pattern in pattern.patterns:
-                        for group_name in regex_pattern.groupindex:
-                            if group_name not in pattern.private_names:
-                                extend_safe(self._properties[group_name], [None])
-            elif isinstance(pattern, FunctionalPattern) and pattern.name and pattern.name not in pattern.private_names:
-                extend_safe(self._properties[pattern.name], [None])
+            for name, child in self._names(pattern):
+                if name and (name in pattern.private_names or name in pattern.ignore_names):
+                    continue
+                # A `value=` given to the pattern is stored in `pattern.values` (keyed by match
+                # name, by role, or `None` for the default), not in `match_options`. When set, it
+                # is the introspected property value.
+                keys = (name, "__children__" if child else "__parent__", None)
+                value = get_first_defined(pattern.values, keys, pattern._default_value)
+                if value is not None:
+                    extend_safe(self._properties[cast("str", name)], [value])
+                elif isinstance(pattern, StringPattern):
+                    extend_safe(self._properties[cast("str", name)], pattern.patterns)
+                elif isinstance(pattern, (RePattern, FunctionalPattern)) and name:
+                    extend_safe(self._properties[name], [None])
+
+    @staticmethod
+    def _names(pattern: Pattern) -> Iterator[tuple[str | None, bool]]:
+        """
+        Names of the matches the pattern can generate, and whether they are names of children.
+        :param pattern:
+        :type pattern:
+        :return:
+        :rtype:
+        """
+        if pattern._should_include_parent and not pattern.private_parent:
+            yield pattern.name, False
+        if isinstance(pattern, RePattern) and not pattern.private_children:
+            for regex_pattern in pattern.patterns:
+                if pattern._should_include_children and regex_pattern.groups > len(regex_pattern.groupindex):
+                    yield pattern.name, True
+                for group_name in regex_pattern.groupindex:
+                    yield group_name, True
+        if isinstance(pattern, FunctionalPattern):
+            # Names may also come from the options of the matches given by the function.
+            for value_name in pattern.values:
+                if value_name not in (None, "__parent__", "__children__"):
+                    yield value_name, False
 
     @property
     def properties(self) -> dict[str, list[Any]]:
-- 
2.43.0


From af1f13a45b2759dc0d13882929dcfe152053ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 36/49] fix: give matches the value of their pattern when it is
 falsy

---
 rebulk/loose.py   | 4 ++--
 rebulk/match.py   | 6 +++---
 rebulk/pattern.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index eaa5eb6..fc4a160 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -131,10 +131,10 @@ def ensure_dict(param: Any, default_value: Any, default_key: Any = None) -> tupl
     :return:
     :rtype:
     """
-    if not param:
+    if param is None:
         param = default_value
     if not isinstance(param, dict):
-        if param:
+        if param is not None:
             default_value = param
         return {default_key: param}, default_value
     return param, default_value
diff --git a/rebulk/match.py b/rebulk/match.py
index 7833a75..ddb3480 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1134,7 +1134,7 @@ class Match:
         :return:
         :rtype:
         """
-        if self._value:
+        if self._value is not None:
             return self._value
         if self.formatter:
             return self.formatter(self.raw)
@@ -1157,10 +1157,10 @@ class Match:
         True when :attr:`value` returns a hardcoded literal (set via ``value=``)
         rather than a formatter / raw-text result.
 
-        Mirrors the truthiness test the :attr:`value` getter uses, so it reflects
+        Mirrors the test the :attr:`value` getter uses, so it reflects
         exactly when ``value`` short-circuits to the stored literal.
         """
-        return bool(self._value)
+        return self._value is not None
 
     @property
     def names(self) -> set[str | None]:
diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index cc86164..205a3df 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -275,7 +275,7 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         """
         keys = self._match_config_property_keys(match, child=child)
         pattern_value = get_first_defined(self.values, keys, self._default_value)
-        if pattern_value:
+        if pattern_value is not None:
             match.value = pattern_value
 
     def _process_match_formatter(self, match: Match, child: bool = False) -> None:
-- 
2.43.0


From 5bd37989497b6452af00e90ecfc5adbf018826f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:21 +0000
Subject: [PATCH 37/49] fix: cut pieces of a match with explicit raw bounds
 along its span

---
 rebulk/match.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index ddb3480..ad08be5 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1289,6 +1289,7 @@ class Match:
                     current.start = end
                 elif current.start <= start < current.end:
                     current.end = start
+        self._reset_raw_bounds(ret)
         return filter_index(ret, predicate, index)
 
     @overload
@@ -1316,7 +1317,7 @@ class Match:
         split_match: Match | None = current_match
         ret: list[Match] = []
 
-        for i, char in enumerate(self.raw):  # type: ignore[arg-type]
+        for i, char in enumerate(self.input_string[self.start : self.end]):  # type: ignore[index]
             if char in seps:
                 if not split_match:
                     split_match = copy.deepcopy(current_match)
@@ -1329,8 +1330,18 @@ class Match:
                     ret.append(split_match)
                     split_match = None
 
+        self._reset_raw_bounds(ret)
         return filter_index(ret, predicate, index)
 
+    def _reset_raw_bounds(self, pieces: list[Match]) -> None:
+        """
+        Explicit raw bounds of this match don't hold for the pieces cut from it.
+        """
+        for piece in pieces:
+            if piece.span != self.span:
+                piece.raw_start = None
+                piece.raw_end = None
+
     def tagged(self, *tags: str) -> bool:
         """
         Check if this match has at least one of the provided tags
-- 
2.43.0


From 1ef18515cc8d6b664fe062135ca004fb8ac3352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 38/49] fix: merge default dicts having a clear entry as any
 other

---
 rebulk/loose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index fc4a160..5053755 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -182,13 +182,20 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
+    _merge_defaults(defaults, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[Any, Any], kwargs: dict[Any, Any], override: bool = False) -> None:
+    """
+    Set defaults from defaults dict to kwargs dict, whatever the keys: those of nested dicts are names of matches.
+    """
     for key, value in defaults.items():
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
                 merged = dict(kwargs[key])
-                set_defaults(value, merged)
+                _merge_defaults(value, merged)
                 kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From 27f81e7252c9f7804d708dc8066e84b34593c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 39/49] fix: give chain parts the callables and values of the
 defaults, not copies of them

---
 rebulk/builder.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rebulk/builder.py b/rebulk/builder.py
index 3554d7a..7767894 100644
--- a/rebulk/builder.py
+++ b/rebulk/builder.py
@@ -7,7 +7,6 @@ from __future__ import annotations
 
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
-from copy import deepcopy
 from logging import getLogger
 from typing import TYPE_CHECKING, Any, TypeVar
 
@@ -64,6 +63,17 @@ def _apply_key(key: Key[Any] | Sequence[Key[Any]] | None, kwargs: dict[str, Any]
     return kwargs
 
 
+def _copy_options(options: Any) -> Any:
+    """
+    Copy the dicts and lists of options, but neither the callables nor the values they hold.
+    """
+    if isinstance(options, dict):
+        return {key: _copy_options(value) for key, value in options.items()}
+    if isinstance(options, list):
+        return [_copy_options(value) for value in options]
+    return options
+
+
 @contextmanager
 def overrides(kwargs: dict[str, Any]) -> Iterator[dict[str, Any]]:
     """
@@ -292,11 +302,11 @@ class ChainBuilder(PatternFactory):
         self._chain = chain
 
     def _inherit_defaults(self, source: PatternFactory) -> None:
-        self._defaults = deepcopy(source._defaults)
-        self._regex_defaults = deepcopy(source._regex_defaults)
-        self._functional_defaults = deepcopy(source._functional_defaults)
-        self._string_defaults = deepcopy(source._string_defaults)
-        self._chain_defaults = deepcopy(source._chain_defaults)
+        self._defaults = _copy_options(source._defaults)
+        self._regex_defaults = _copy_options(source._regex_defaults)
+        self._functional_defaults = _copy_options(source._functional_defaults)
+        self._string_defaults = _copy_options(source._string_defaults)
+        self._chain_defaults = _copy_options(source._chain_defaults)
         self._keys = dict(source._keys)
 
     def _add(self, pattern: Any) -> ChainPart:
-- 
2.43.0


From 558a2cd8007f8b63e74284d6c18d727c23a5c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 40/49] fix: keep the pattern and the callables of a match in
 the pieces cut from it

---
 rebulk/match.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index ad08be5..2d09f7d 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1333,6 +1333,17 @@ class Match:
         self._reset_raw_bounds(ret)
         return filter_index(ret, predicate, index)
 
+    def __deepcopy__(self, memo: dict[int, Any]) -> Match:
+        """
+        Copy this match, its value and its relatives, but neither the pattern nor the callables it was given.
+        """
+        ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = ret
+        for name, value in self.__dict__.items():
+            shared = name in ("pattern", "formatter", "conflict_solver", "defined_at")
+            ret.__dict__[name] = value if shared else copy.deepcopy(value, memo)
+        return ret
+
     def _reset_raw_bounds(self, pieces: list[Match]) -> None:
         """
         Explicit raw bounds of this match don't hold for the pieces cut from it.
-- 
2.43.0


From 77b6c76d04084de95e78022808b0b510d12ea0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 41/49] fix: search with the children of children rebulk
 objects too

---
 rebulk/rebulk.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/rebulk/rebulk.py b/rebulk/rebulk.py
index 6978168..eb43b64 100644
--- a/rebulk/rebulk.py
+++ b/rebulk/rebulk.py
@@ -164,6 +164,21 @@ class Rebulk(Builder):
 
         return matches
 
+    def _descendants(self, included: Callable[[Rebulk], bool] = lambda child: True) -> list[Rebulk]:
+        """
+        Get included children rebulk objects and their own children, in order and once each.
+        """
+        rebulks: list[Rebulk] = [self]
+
+        def load(parent: Rebulk) -> None:
+            for child in parent._rebulks:
+                if not any(child is rebulk for rebulk in rebulks) and included(child):
+                    rebulks.append(child)
+                    load(child)
+
+        load(self)
+        return rebulks[1:]
+
     def effective_rules(self, context: dict[str, Any] | None = None) -> Rules:
         """
         Get effective rules for this rebulk object and its children.
@@ -174,9 +189,8 @@ class Rebulk(Builder):
         """
         rules = Rules()
         rules.extend(self._rules)
-        for rebulk in self._rebulks:
-            if not rebulk.disabled(context):
-                extend_safe(rules, rebulk._rules)
+        for rebulk in self._descendants(lambda child: not child.disabled(context)):
+            extend_safe(rules, rebulk._rules)
         return rules
 
     def effective_keys(self, context: dict[str, Any] | None = None) -> dict[str, Key[Any]]:
@@ -191,10 +205,9 @@ class Rebulk(Builder):
         :rtype:
         """
         keys: dict[str, Key[Any]] = dict(self._keys)
-        for rebulk in self._rebulks:
-            if not rebulk.disabled(context):
-                for name, key in rebulk._keys.items():
-                    keys.setdefault(name, key)
+        for rebulk in self._descendants(lambda child: not child.disabled(context)):
+            for name, key in rebulk._keys.items():
+                keys.setdefault(name, key)
         return keys
 
     def check_keys(self, *, allowed_unused: str | Iterable[str] = ()) -> list[str]:
@@ -223,7 +236,7 @@ class Rebulk(Builder):
         """
         declared: dict[str, Key[Any]] = dict(self._keys)
         patterns: list[Pattern] = list(self._patterns)
-        for rebulk in self._rebulks:
+        for rebulk in self._descendants():
             for name, key in rebulk._keys.items():
                 declared.setdefault(name, key)
             patterns.extend(rebulk._patterns)
@@ -258,9 +271,8 @@ class Rebulk(Builder):
         :rtype:
         """
         patterns = list(self._patterns)
-        for rebulk in self._rebulks:
-            if not rebulk.disabled(context):
-                extend_safe(patterns, rebulk._patterns)
+        for rebulk in self._descendants(lambda child: not child.disabled(context)):
+            extend_safe(patterns, rebulk._patterns)
         return patterns
 
     def _matches_patterns(self, matches: Matches, context: dict[str, Any]) -> None:
-- 
2.43.0


From c0771b48080ae9647501dfeeabfe270193840fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 42/49] fix: repeat a chain part exactly n times with a {n}
 repeater

---
 rebulk/chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index eb66619..fa574f2 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -404,10 +404,11 @@ class ChainPart(BasePattern):
             self.repeater_start = 0
             self.repeater_end = 1
         else:
-            match = re.match(r"\{\s*(\d*)\s*,?\s*(\d*)\s*\}", value)
+            match = re.match(r"\{\s*(\d*)\s*(,?)\s*(\d*)\s*\}", value)
             if match:
                 start = match.group(1)
-                end = match.group(2)
+                # Without a comma, it's an exact number of repetitions.
+                end = match.group(3) or ("" if match.group(2) else start)
                 if start or end:
                     self.repeater_start = int(start) if start else 0
                     self.repeater_end = int(end) if end else None
-- 
2.43.0


From 6ec6b108fa651a75ca22433a1ca2d6c4b7ab65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:32 +0000
Subject: [PATCH 43/49] fix: replace abbreviations in expressions given with
 flags as a tuple too

They were replaced in expressions given as text or as a dict, but not in
those given as a tuple of text and flags.
---
 rebulk/pattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 205a3df..62c23b0 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -487,7 +487,11 @@ class RePattern(Pattern):
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
                 pattern = re.compile(**pattern)
             elif hasattr(pattern, "__iter__"):
-                pattern = re.compile(*pattern)
+                expression, *args = pattern
+                if self.abbreviations:
+                    for key, replacement in self.abbreviations:
+                        expression = expression.replace(key, replacement)
+                pattern = re.compile(expression, *args)
             self._patterns.append(pattern)
 
     @property
-- 
2.43.0


From b4d3e881623b202444866c8cef68acf7d25049c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:53 +0000
Subject: [PATCH 44/49] fix: match expressions compiled by the re module when
 the regex module is used

---
 rebulk/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 62c23b0..7f55b14 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -516,7 +516,7 @@ class RePattern(Pattern):
             if pattern.groups:
                 for i in range(1, pattern.groups + 1):
                     name = names.get(i, main_match.name)
-                    if self.repeated_captures:
+                    if self.repeated_captures and hasattr(match_object, "spans"):
                         spans = match_object.spans(i)
                     else:
                         span = match_object.span(i)
-- 
2.43.0


From 3011d19416b05e1caade4ae5f75f297bf475a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:27 +0000
Subject: [PATCH 45/49] fix: holes and chains of matches going further than the
 input string

---
 rebulk/match.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 2d09f7d..d7e5b1f 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -499,7 +499,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 for chain_match in filtered_matches:
                     if chain_match not in chain:
                         chain.append(chain_match)
-            elif self.input_string[i] not in seps:  # type: ignore[index]
+            elif not self._is_separator(i, seps):
                 break
 
         return filter_index(chain, predicate, index)
@@ -555,7 +555,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 for chain_match in filtered_matches:
                     if chain_match not in chain:
                         chain.append(chain_match)
-            elif self.input_string[i] not in seps:  # type: ignore[index]
+            elif not self._is_separator(i, seps):
                 break
 
         return filter_index(chain, predicate, index)
@@ -568,6 +568,13 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         return max(len(self.input_string), self._max_end) if self.input_string else self._max_end
 
+    def _is_separator(self, index: int, seps: str) -> bool:
+        """
+        Check if the character at given index is a separator. Matches may go further than the input string, where no
+        character is known to be one.
+        """
+        return index < len(self.input_string) and self.input_string[index] in seps  # type: ignore[arg-type,index]
+
     def _hole_start(self, position: int, ignore: Callable[[Match], Any] | None = None) -> int:
         """
         Retrieves the start of hole index from position.
@@ -665,7 +672,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if not ignore or not ignore(at_index):
                     current.append(at_index)
 
-            if seps and hole and self.input_string and self.input_string[rindex] in seps:
+            if seps and hole and self.input_string and self._is_separator(rindex, seps):
                 hole = False
                 ret[-1].end = rindex
             else:
-- 
2.43.0


From 8b0583d330ba5523c25350d7c3222ebeb1bc6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:29 +0000
Subject: [PATCH 46/49] fix: callables taking any keyword were given one nobody
 offered

---
 rebulk/loose.py   | 2 +-
 rebulk/pattern.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5053755..75d47c5 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -41,7 +41,7 @@ def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     :rtype: object
     """
     func = constructor_args if isclass(function) else function_args
-    call_args, call_kwargs = func(function, *args, ignore_unused=True, **kwargs)  # @see #20
+    call_args, call_kwargs = func(function, *args, **kwargs)
     return function(*call_args, **call_kwargs)
 
 
diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 7f55b14..3eaa1a8 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -479,7 +479,7 @@ class RePattern(Pattern):
                 if self.abbreviations and pattern:
                     for key, replacement in self.abbreviations:
                         pattern = pattern.replace(key, replacement)
-                pattern = call(re.compile, pattern, **self._kwargs)
+                pattern = call(re.compile, pattern, ignore_unused=True, **self._kwargs)  # @see #20
             elif isinstance(pattern, dict):
                 pattern = dict(pattern)
                 if self.abbreviations and "pattern" in pattern:
-- 
2.43.0


From 2b1bb7b793adb9e9570010639fab3bedd6199100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:29 +0000
Subject: [PATCH 47/49] fix: options named as an argument given by position
 failed the call

---
 rebulk/loose.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 75d47c5..a7a954f 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -95,8 +95,12 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args + argspec.kwonlyargs}
-    call_args = args if argspec.varargs else args[: max(0, len(argspec.args) - (1 if constructor else 0))]
+    bound = 1 if constructor else 0
+    call_args = args if argspec.varargs else args[: max(0, len(argspec.args) - bound)]
+    # An argument already given by position can't be given again by keyword.
+    given = argspec.args[: bound + len(call_args)]
+    accepted = [name for name in argspec.args if name not in given] + argspec.kwonlyargs
+    call_kwarg = {k: v for k, v in kwargs.items() if k in accepted or (argspec.varkw and k not in given)}
     return call_args, call_kwarg
 
 
-- 
2.43.0


From bb000fa1d1bc54911a78770b268f628fab1afbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:29 +0000
Subject: [PATCH 48/49] fix: cropping by an iterator or a set of spans failed

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index d7e5b1f..3629c8c 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1270,7 +1270,8 @@ class Match:
         :return: a list of Match objects
         :rtype: list[Match]
         """
-        if not is_iterable(crops) or (len(crops) == 2 and isinstance(crops[0], int)):
+        crops = list(crops) if is_iterable(crops) else [crops]
+        if len(crops) == 2 and isinstance(crops[0], int):
             crops = [crops]
         initial = copy.deepcopy(self)
         ret = [initial]
-- 
2.43.0


From 31b7d649a9e56be64a19f9e584ec1350bb465fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:00 +0000
Subject: [PATCH 49/49] fix: chains that dropped a repetition ended at its last
 group, not at its last part

---
 rebulk/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index fa574f2..7cd212c 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -162,7 +162,8 @@ class Chain(Pattern):
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
-                    match.end = match.children[-1].end if match.children else match.start
+                    # The last child may be a group that ends before the part it comes from.
+                    match.end = max((part.end for part in match.children if part.parent is match), default=match.start)
                     ret = super()._process_match(match, match_index, child=child)
                     if ret:
                         return True
-- 
2.43.0

