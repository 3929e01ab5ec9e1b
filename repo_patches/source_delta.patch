From 88b3283a3a8d31ca478d39142e452f7ee7fe3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 01/19] fix: merge of bytes with a one-sided conflict raised
 TypeError

The missing side of a conflict was padded with a str, which cannot be
joined with bytes.  Pad with an empty piece of the fragment itself.
---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..183c5ed 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -203,8 +203,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From 2cf276a1d71aae286aab1aa1eb61440ca1f183b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 02/19] fix: merge swapped conflict sides when branch 0 copies
 and branch 1 changes

merge("ab", "aa", "") even came out without a conflict, while
merge("ab", "", "aa") reported one.
---
 src/gaspra/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 183c5ed..e613c9f 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,10 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        # copy_change() puts the changed version first, but here the
+        # change is on branch 1.
+        if isinstance(output, ConflictFragment):
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From dbb9fcba14a251ffedcd9f5ff150a999a443484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 03/19] fix: merge attributed an insertion to the other
 branch's conflicting deletion

merge("ac", "", "xa") offered "x" (branch 1's insertion) as branch 0's
side of the conflict, and "a" without "x" as branch 1's.
---
 src/gaspra/merge.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index e613c9f..0dcf4fb 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -280,13 +280,13 @@ def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
     # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # change.  One input sequence was [insert x/delete nothing][s] The
+    # other input sequence was [insert nothing/delete s].  The insertion
+    # is output, and the deletion is pushed back onto its own input
+    # list so that it is processed properly against [s] and whatever
+    # follows it.  Attaching the insertion to the deletion instead would
+    # attribute it to the wrong branch if the deletion turns out to be
+    # in conflict.  See compose_changes().
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -295,19 +295,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From 39f771511622c94f3643588de07d27bc547c23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/19] fix: diff() and merged() remembered the type of earlier
 arguments

The default tokenizer was shared by all calls, so that a diff of bytes
failed after a diff of str.
---
 src/gaspra/tokenizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..e99920f 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -226,13 +226,14 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    tokenizer = NullTokenizer() if tokenizer is None else tokenizer
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -245,7 +246,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -254,6 +255,7 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    tokenizer = NullTokenizer() if tokenizer is None else tokenizer
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 4abf11f3214e733ce145691c864f4e0f3a9ca1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 05/19] fix: merged() always raised TypeError

decode_changes() no longer takes a transformer.
---
 src/gaspra/tokenizers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index e99920f..7ef5279 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -247,7 +247,6 @@ def merged(
     current,
     other,
     tokenizer: Tokenizer | None = None,
-    transformer=lambda _: _,
 ):
     """
     High level diff() call that optionally encodes the sequences to be
@@ -261,5 +260,5 @@ def merged(
     encoded_other = tokenizer.encode(other)
 
     changes = merge_token_sequence(encoded_parent, encoded_current, encoded_other)
-    merged = decode_changes(changes, tokenizer, transformer)
+    merged = decode_changes(changes, tokenizer)
     return merged
-- 
2.43.0


From 5401f48e0ff601fade5841719cc1c530d465a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 06/19] fix: LineTokenizer added an empty token after a final
 newline

Re-encoding the fragments of a stored patch then gave one token too many
per fragment, so that Versions(tokenizer_factory=LineTokenizer) returned
corrupted contents once a retrieval path had two or more patches.
---
 src/gaspra/tokenizers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 7ef5279..a8cda80 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -148,7 +148,12 @@ class LineTokenizer(Generic[BytesOrStr]):
             split_on = cast(BytesOrStr, "\n")
 
         split = cast(list[BytesOrStr], contents.split(split_on))
-        lines = [*(line + split_on for line in split[:-1]), split[-1]]
+        lines = [line + split_on for line in split[:-1]]
+        # What follows the last newline is only a line if it isn't
+        # empty.  An empty token would become part of the encoding of
+        # every fragment that ends with a newline.
+        if split[-1]:
+            lines.append(split[-1])
         encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
         return encoded
 
-- 
2.43.0


From 2fe466031c2a30473d5f517f67fabfc7873b2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 07/19] fix: a failing Versions.add() damaged the store

Versions.add() stored the new version before looking at the base, so a
tag already in use lost its contents, an unknown base or contents that
can't be encoded left a half-added version behind, and a base that was
no longer a head raised KeyError after the new tag had been added (which
also broke manifests that revert an item or branch).  Compute everything
first, refuse tags that are in use and unknown bases, and let any stored
version be a base.
---
 src/gaspra/versions.py | 47 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..da97608 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -32,36 +32,41 @@ class Versions:
     tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer
 
     def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
-        self.head_version[tag] = version
-        self.tree.add(tag, existing_head)
+        if tag in self.tree:
+            raise ValueError(f"Tag is already in use: {tag!r}")
+        if existing_head is not None and existing_head not in self.tree:
+            raise KeyError(existing_head)
+
+        # Do everything that can fail for this version before changing
+        # anything, so that a failure leaves everything as it was.
+        self.tokenizer_factory().encode(version)
+        edges = []
 
         # Find the best split best split among the descendants of existing_head.
         if existing_head is not None:
-            split, path_to_split = self.tree.get_split(existing_head)
+            split, _ = self.tree.get_split(existing_head)
         else:
-            split = existing_head = path_to_split = None
+            split = None
 
         # If there is an appropriate split, move it up to be a child of `tag`
-        if split is not None and path_to_split is not None and split != existing_head:
-            split_version = self._retrieve_using_path(path_to_split)
-            self._add_edge(
-                tag,
-                split,
-                self._make_changeset(version, split_version),
-            )
-            self.tree.change_parent(split, tag)
+        if split is not None and split != existing_head:
+            edges.append((split, self._make_edge(version, split)))
 
-        # If there was a pre-existing head, make it a child of `tag`
+        # If there was a pre-existing head, make it a child of `tag`.
+        # (It may also be an older version that's not a head any more.)
         if existing_head is not None:
-            existing_head_version = self.head_version[existing_head]
-            self._add_edge(
-                tag,
-                existing_head,
-                self._make_changeset(version, existing_head_version),
-            )
+            edges.append((existing_head, self._make_edge(version, existing_head)))
+
+        self.head_version[tag] = version
+        self.tree.add(tag, existing_head)
+        for child_tag, serialized_changeset in edges:
+            self._add_edge(tag, child_tag, serialized_changeset)
 
         return
 
+    def _make_edge(self, version: bytes, child_tag: Hashable) -> bytes:
+        return serialize_changeset(self._make_changeset(version, self.get(child_tag)))
+
     def _make_changeset(self, original: bytes, modified: bytes):
         tokenizer = self.tokenizer_factory()
         encoded_original = tokenizer.encode(original)
@@ -78,8 +83,8 @@ class Versions:
         )
         return changeset
 
-    def _add_edge(self, parent_tag, child_tag, changeset):
-        self.diffs[child_tag] = serialize_changeset(changeset)
+    def _add_edge(self, parent_tag, child_tag, serialized_changeset: bytes):
+        self.diffs[child_tag] = serialized_changeset
 
         # It's a spanning tree so a node can have only one
         # parent.  When adding an edge, the new parent
-- 
2.43.0


From d0049aba6d4d6e0e80fca4c8c9b0ef29048f99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 08/19] fix: DBTree lost a child when both children had a
 previous parent

When an older version becomes the base of a new one, both it and the
split have a parent already.  Both went into the second slot of the new
parent, so that one of them was missing from the metrics and splits.
---
 src/gaspra/db_tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index ac4963d..948a34c 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -101,9 +101,13 @@ class DBTree:
             connection.cursor().execute(
                 CHANGE_PARENT, (new_parent, new_parent_rid, tag_rid)
             )
-            # Add tag as child of new parent on childx
-            # Heads get added on child0, splits get added on
-            child = 0 if original_parent is None else 1
+            # Add tag as child of new parent on the first free childx
+            child0_rid = (
+                connection.cursor()
+                .execute(SELECT_ANYTHING.format(selection="child0_rid"), (new_parent,))
+                .fetchone()[0]
+            )
+            child = 0 if child0_rid is None else 1
             connection.cursor().execute(
                 ADD_CHILDx.format(x=child), (tag_rid, new_parent_rid)
             )
-- 
2.43.0


From b392763af599cd15ca0d87fb2ab060a78528ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 09/19] fix: version_info() failed with database storage

Versions expects its collections to be mutable mappings and uses get(),
which DBCollection did not have.
---
 src/gaspra/db_collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..33b0dea 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,4 +1,4 @@
-from typing import Callable
+from typing import Callable, MutableMapping
 
 from sqlite3 import Connection
 
@@ -34,7 +34,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping[str, bytes]):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From f4fd7d9cf1a6afe8a232880215cbd687cd57fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/19] fix: DBTree.path_to() returned an empty path for an
 unknown tag

fetchall() never returns None.  MemoryTree returns None as well.
---
 src/gaspra/db_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index 948a34c..27b95d4 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -56,7 +56,7 @@ class DBTree:
     def reverse_path_to(self, tag: Hashable) -> Sequence[Hashable] | None:
         with self.connection_factory() as connection:
             rows = connection.cursor().execute(PATH_TO, (tag,)).fetchall()
-            if rows is not None:
+            if rows:
                 return tuple(row[0] for row in rows)
             else:
                 return None
-- 
2.43.0


From eacd50d3b8210fc8b561f62fe425ed50369b37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 11/19] fix: add_manifest() raised KeyError for names the base
 does not have

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From b2529f254ef0519182d40b65979bc3d1dcb70ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 12/19] fix: n-way LCS confused separators with tuples used as
 tokens

A namedtuple is equal to a plain tuple with the same contents, so
find_lcs(((0,), "a", "b"), ("a", "b")) found nothing in common.
---
 src/gaspra/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..983057b 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,14 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+@dataclass(frozen=True)
+class Separator:
+    # Not a namedtuple because that would be equal to a tuple used as a
+    # token.
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0


From 28d0c59bebb625818a3a3ecf3a6f99f54dc7c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/19] fix: --strikeout failed and changed the markup of later
 merges

The markup of a branch is a dictionary of functions, but --strikeout put
a function there, so that showing any deletion raised TypeError.  It
also modified the module's own tables, and would have replaced git's
markers with --git-compatible.
---
 src/gaspra/merge_tool.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..582f492 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -152,13 +152,16 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
     if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+        # Neither git's markers nor a plain output file have fonts.
+        if not arguments.git_compatible:
+            markup["level0"]["from"]["prefix"] = lambda _: strikeout_level0()
+        if not arguments.output:
+            markup["level1"]["from"]["prefix"] = lambda _: strikeout_level1()
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From fe3c0be996a41ea1a5344f0c8618b67099e82f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/19] fix: text was changed when shown on the console

Backslashes in front of brackets (and at the end of a change) were taken
as escapes, emoji codes such as :smile: were replaced, long lines were
wrapped and lost blanks, and merge did not escape file names.
---
 src/gaspra/markup.py     | 18 +++++++++++++++---
 src/gaspra/merge_tool.py | 10 +++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..3e68be0 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import re
 
 from rich.console import Console
 
@@ -7,7 +8,14 @@ from gaspra.types import Change
 
 
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    # In front of a tag rich takes backslashes as escapes.  The tag may
+    # be in what is printed after s.  Double them and end them with a tag
+    # that does nothing.
+    return re.sub(
+        r"\\+(?=\[|\Z)|\[",
+        lambda m: r"\[" if m[0] == "[" else m[0] * 2 + "[none][/]",
+        s,
+    )
 
 
 COLORED_LEVEL0 = {
@@ -64,10 +72,14 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
-    console = Console(force_terminal=None, highlight=False)
+    # Without a limit on the width, rich neither wraps long lines nor
+    # removes blanks where one of the fragments of a long line ends.
+    console = Console(
+        force_terminal=None, highlight=False, emoji=False, width=1_000_000_000
+    )
 
     def print(s):
-        console.print(s, end="")
+        console.print(s, end="", soft_wrap=True)
 
     yield print, rich_escape
     return
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 582f492..14f60a1 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -275,8 +275,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0


From 78f57f32870038e8179c68f630679c07fc3805f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 15/19] fix: diffs with many changes raised RecursionError

The tree of changes can be as deep as there are changes, for example
when every other line of a long file is different.  Build and read it
without recursion.
---
 src/gaspra/changesets.py | 89 +++++++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/src/gaspra/changesets.py b/src/gaspra/changesets.py
index 9704f5b..78b4c54 100644
--- a/src/gaspra/changesets.py
+++ b/src/gaspra/changesets.py
@@ -114,10 +114,12 @@ class Changeset:
         # Construction of the tree creates "empty" changesets.  Omit
         # those from the output stream.
 
-        yield from self.prefix._stream(original)
-        copy = original[self.common_original]
-        yield CopyFragment(insert=copy, length=len(copy))
-        yield from self.suffix._stream(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                copy = original[node.common_original]
+                yield CopyFragment(insert=copy, length=len(copy))
+            else:
+                yield from node._stream(original)
 
     def as_change_stream(self) -> ChangeIterable:
         """Produce a simple output stream containing changes.
@@ -128,9 +130,11 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_change_stream()
-        yield CommonSlice(self.common_original, self.common_modified)
-        yield from self.suffix.as_change_stream()
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield CommonSlice(node.common_original, node.common_modified)
+            else:
+                yield from node.as_change_stream()
 
     def as_diff_stream(self, original: str | TokenSequence) -> DiffIterable:
         """Produce a simpler output stream than _stream() suitable
@@ -141,19 +145,43 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_diff_stream(original)
-        yield original[self.common_original]
-        yield from self.suffix.as_diff_stream(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield original[node.common_original]
+            else:
+                yield from node.as_diff_stream(original)
 
     def old_apply_forward(self, original: str | TokenSequence):
-        yield from self.prefix.old_apply_forward(original)
-        yield original[self.common_original]
-        yield from self.suffix.old_apply_forward(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield original[node.common_original]
+            else:
+                yield from node.old_apply_forward(original)
 
     def old_apply_reverse(self, modified: str | TokenSequence):
-        yield from self.prefix.old_apply_reverse(modified)
-        yield modified[self.common_modified]
-        yield from self.suffix.old_apply_reverse(modified)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield modified[node.common_modified]
+            else:
+                yield from node.old_apply_reverse(modified)
+
+    def _in_order(self) -> Iterable[Changeset | ChangesetLeaf]:
+        """All nodes of the tree in the order of the sequences.
+
+        The tree can be as deep as there are changes, so this must not
+        be recursive."""
+        stack = []
+        node = self
+        while True:
+            while isinstance(node, Changeset):
+                stack.append(node)
+                node = node.prefix
+            yield node
+            if not stack:
+                return
+            node = stack.pop()
+            yield node
+            node = node.suffix
 
     # Exclude __str__ from coverage because it's only used for debugging.
     def __str__(self):  # pragma: no cover
@@ -216,10 +244,31 @@ def find_changeset(
     original_slice: slice = slice(0, None),
     modified_slice: slice = slice(0, None),
 ) -> Changeset | ChangesetLeaf:
-    automaton_original = build(original[original_slice])
+    # There can be as many levels of recursion as there are changes, so
+    # keep the recursive calls on a stack of our own.
+    stack = [_find_changeset(original, modified, original_slice, modified_slice)]
+    changeset = None
+    while stack:
+        try:
+            recursive_call = stack[-1].send(changeset)
+        except StopIteration as finished:
+            stack.pop()
+            changeset = finished.value
+        else:
+            stack.append(recursive_call)
+            changeset = None
 
+    return changeset
+
+
+def _find_changeset(
+    original: TokenSequence,
+    modified: TokenSequence,
+    original_slice: slice,
+    modified_slice: slice,
+):
     common_offset_original, common_offset_modified, common_length = find_lcs(
-        automaton_original, modified[modified_slice]
+        build(original[original_slice]), modified[modified_slice]
     )
 
     if common_length == 0:
@@ -239,13 +288,13 @@ def find_changeset(
             modified_slice.start + common_offset_modified + common_length,
         )
 
-        prefix = find_changeset(
+        prefix = yield _find_changeset(
             original,
             modified,
             slice(original_slice.start, common_original.start),
             slice(modified_slice.start, common_modified.start),
         )
-        suffix = find_changeset(
+        suffix = yield _find_changeset(
             original,
             modified,
             slice(common_original.stop, original_slice.stop),
-- 
2.43.0


From ff129cb400831bd72b934db5d28f6cb96da62b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 16/19] fix: give headers their own line in git-compatible
 output

---
 src/gaspra/markup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 3e68be0..e2dbeb7 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -29,6 +29,7 @@ GIT_MARKUP_LEVEL0 = {
     "into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""},
     "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"},
     "separator": "=======\n",
+    "header": {"prefix": "<<<", "suffix": ">>>\n"},
 }
 
 PLAIN_LEVEL1 = {
-- 
2.43.0


From 0c850d41cf7826dcedaecb380f476d33dc6c4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 17/19] fix: let suffixes of automata built from lists be
 enumerated

---
 src/gaspra/suffix_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/suffix_automaton.py b/src/gaspra/suffix_automaton.py
index c3cac5e..5fd07a2 100644
--- a/src/gaspra/suffix_automaton.py
+++ b/src/gaspra/suffix_automaton.py
@@ -77,7 +77,7 @@ def build(
 
     """
     if empty is None:
-        empty = tokens[0:0] if isinstance(tokens, Sequence) else ()
+        empty = tokens[0:0] if isinstance(tokens, str | bytes) else ()
 
     # Create a list to capture all created nodes to make it easier to
     # iterate over them later.
-- 
2.43.0


From 6d1af111360feb6a52d6462876830077f39fc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 18/19] fix: enumerate the suffixes of long sequences without
 recursion

---
 src/gaspra/suffix_automaton.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/gaspra/suffix_automaton.py b/src/gaspra/suffix_automaton.py
index 5fd07a2..6327a28 100644
--- a/src/gaspra/suffix_automaton.py
+++ b/src/gaspra/suffix_automaton.py
@@ -291,19 +291,24 @@ def all_suffixes(current: Node) -> TokenSequenceIterable:
     The only purpose for this is in a test that ensures the automaton
     produces all suffixes and only suffixes.
     """
-    if current.is_terminal:
-        yield current.empty
-
-    for token, node in current.transitions.items():
-        for substring in all_suffixes(node):
-            if type(token) is int and type(substring) is bytes:
-                yield bytes((token,)) + substring
-            elif type(token) is str and type(substring) is str:
-                yield token + substring
-            elif isinstance(token, Hashable) and isinstance(substring, tuple):
-                yield (token,) + substring
+    # The automaton is as deep as its sequence is long, so this must not
+    # be recursive.
+    stack = [(current, current.empty)]
+    while stack:
+        node, prefix = stack.pop()
+        if node.is_terminal:
+            yield prefix
+
+        for token, next_node in reversed(node.transitions.items()):
+            if type(token) is int and type(prefix) is bytes:
+                suffix = prefix + bytes((token,))
+            elif type(token) is str and type(prefix) is str:
+                suffix = prefix + token
+            elif isinstance(token, Hashable) and isinstance(prefix, tuple):
+                suffix = prefix + (token,)
             else:  # pragma: no cover
                 raise ValueError(f"Unexpected type {type(token)}")
+            stack.append((next_node, suffix))
 
 
 # Exclude dump() from coverage because it's primarily a debugging tool
-- 
2.43.0


From 835439f74a94428bb0da003a7438f9c40101a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:33 +0000
Subject: [PATCH 19/19] fix: write the names of files that are not valid UTF-8
 into output files

With -g and -o the tools failed with UnicodeEncodeError, and the output
was cut off, when the name of an input was not valid UTF-8.
---
 src/gaspra/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index e2dbeb7..90e0cef 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -65,7 +65,8 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
+    # Names of files that are not valid UTF-8 are written as they are.
+    file = open(filename, "wt", encoding="utf-8", errors="surrogateescape")
 
     yield file.write, lambda _: _
     file.close()
-- 
2.43.0

